---------------------------- MODULE TraceStruct ----------------------------
(***************************************************************************)
(* What a tree does with its components, recorded by summary and           *)
(* collection types supplied by the harness.  VebTree.tla specifies the    *)
(* tree that owns them; its invariant Structure (summary keys = subtree    *)
(* keys at every node) is what these records are checked for.              *)
(*                                                                         *)
(*   <<"run", name, 0, 0>>        a new tree; nothing watched before counts*)
(*   <<"s-new", level, id, key>>  a summary / collection is created with   *)
(*   <<"c-new", level, id, key>>  one key                                  *)
(*   <<"s-add", ..>> <<"s-del", ..>> <<"c-add", ..>> <<"c-del", ..>>       *)
(*   <<"s-end", level, id, 0>> <<"c-end", level, id, 0>>  it is dropped    *)
(*   <<"c-take", level, id, key>> unconditional removal is requested       *)
(*   <<"op", name, key, 0>>       a tree operation has returned            *)
(*                                                                         *)
(* After every operation the summaries of a level and the collections of   *)
(* that level must hold the same key sets, equally often; and removal may  *)
(* be requested unconditionally only from a subtree that is present.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sums, cols,    \* id -> <<level, keys>> of the live components
          touched,          \* levels something happened to since the last check
          bad
vars == <<l, sums, cols, touched, bad>>
Empty == [i \in {} |-> <<0, {}>>]

Without(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]
Change(f, e) ==
  LET kind == SubSeq(e[1], 3, 5)  id == e[3]  k == e[4] IN
  CASE kind = "new" -> (id :> <<e[2], {k}>>) @@ f
    [] kind = "add" -> [f EXCEPT ![id] = <<e[2], @[2] \cup {k}>>]
    [] kind = "del" -> [f EXCEPT ![id] = <<e[2], @[2] \ {k}>>]
    [] kind = "end" -> Without(f, id)
    [] OTHER -> f

\* equally many components of this level hold each key set, and none holds none
Times(f, n, S) == Cardinality({i \in DOMAIN f : f[i] = <<n, S>>})
Held(f, n) == {f[i][2] : i \in {j \in DOMAIN f : f[j][1] = n}}
Agree(n) == /\ Held(sums, n) = Held(cols, n)
            /\ {} \notin Held(sums, n)
            /\ \A S \in Held(sums, n) : Times(sums, n, S) = Times(cols, n, S)

Fits(e) == CASE e[1] = "op" -> \A n \in touched : Agree(n)
             [] e[1] = "c-take" -> e[4] \in cols[e[3]][2]
             [] OTHER -> TRUE

Init == l = 1 /\ sums = Empty /\ cols = Empty /\ touched = {} /\ bad = FALSE
Next ==
  /\ l <= Len(Trace) /\ ~bad
  /\ LET e == Trace[l] IN
     IF ~Fits(e)
     THEN bad' = TRUE /\ UNCHANGED <<l, sums, cols, touched>> /\ PrintT("DEVIATION " \o ToString(l))
     ELSE /\ l' = l + 1 /\ bad' = FALSE
          /\ CASE e[1] = "run" -> sums' = Empty /\ cols' = Empty /\ touched' = {}
               [] e[1] = "op"  -> touched' = {} /\ UNCHANGED <<sums, cols>>
               [] e[1] \in {"s-new", "s-add", "s-del", "s-end"} -> sums' = Change(sums, e) /\ touched' = touched \cup {e[2]} /\ UNCHANGED cols
               [] e[1] \in {"c-new", "c-add", "c-del", "c-end"} -> cols' = Change(cols, e) /\ touched' = touched \cup {e[2]} /\ UNCHANGED sums
               [] OTHER -> UNCHANGED <<sums, cols, touched>>
Spec == Init /\ [][Next]_vars
Conforms == ~bad
Track == TLCSet(1, l')
Consumed == PrintT("CONSUMED " \o ToString(<<TLCGet(1), Len(Trace)>>)) /\ TLCGet(1) > Len(Trace)
=============================================================================
