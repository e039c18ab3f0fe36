----------------------------- MODULE TraceLeaf -----------------------------
(***************************************************************************)
(* How a byte map uses its list, recorded by a list supplied by the        *)
(* harness.  ByteLeaf.tla specifies the map over its list: one element per *)
(* key, in ascending key order.  A record is                               *)
(*   <<"run", name, 0, 0>>       a new map                                 *)
(*   <<"new", x, 0, 0>>          the list is created with one element      *)
(*   <<"get", i, n, 0>>, <<"set", i, n, 0>>  shared / mutable access at i  *)
(*                               of a list of n elements                   *)
(*   <<"put", i, n, x>>          x is inserted at position i               *)
(*   <<"take", i, n, 0>>         position i is removed                     *)
(*   <<"try", i, n, 0>>          position i is offered to a remover        *)
(*   <<op, a, b, <<elements>>>>  a call on the map has returned; then the  *)
(*                               list's elements                           *)
(* Calls are those of VebMap on a leaf; "cins", "crem", "cmrem" are the    *)
(* insertion into and the removals of one entry from subtree a, "cget" any *)
(* call that leaves the entries alone, of a byte-                          *)
(* indexed collection, whose elements are shown as their high keys.        *)
(***************************************************************************)
EXTENDS VebMap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, len,  \* length of the list
          bad
lvars == <<tree, obs, l, len, bad>>

ListOps == {"new", "get", "set", "put", "take", "try"}
CanList(e) == CASE e[1] = "new" -> len = 0
                [] e[1] = "put" -> len > 0 /\ e[3] = len /\ e[2] \in 0..len
                [] OTHER        -> e[3] = len /\ e[2] \in 0..(len - 1)
LenAfter(e) == CASE e[1] = "new" -> 1 [] e[1] = "put" -> len + 1 [] e[1] = "take" -> len - 1 [] OTHER -> len

\* a collection: number of entries below each high key
Entries == [k \in DOMAIN tree |-> k]
After(e) == LET o == e[1]  a == e[2]  b == e[3] IN
  CASE o = "cins" -> (a :> (1 + IF a \in DOMAIN tree THEN tree[a] ELSE 0)) @@ tree
    [] o \in {"crem", "cmrem"} -> IF a \notin DOMAIN tree THEN tree
                                  ELSE IF tree[a] = 1 THEN Del(tree, a) ELSE [tree EXCEPT ![a] = @ - 1]
    [] o = "from" -> Single(a, b)
    [] o = "ins" -> Put(tree, a, b)
    [] o = "rem" -> IF a \in DOMAIN tree THEN Del(tree, a) ELSE tree
    [] o = "remmin" -> Del(tree, MinR(tree)[1])
    [] o = "remmax" -> Del(tree, MaxR(tree)[1])
    [] o = "drop" -> EmptyMap
    [] o = "into" -> IF Cardinality(DOMAIN tree) = 1 THEN EmptyMap ELSE tree
    [] o = "findm" /\ b # 0 -> Write(tree, FindR(tree, a), b)
    [] o = "predm" /\ b # 0 -> Write(tree, PredR(tree, a), b)
    [] o = "succm" /\ b # 0 -> Write(tree, SuccR(tree, a), b)
    [] o = "minm" /\ b # 0 -> Write(tree, MinR(tree), b)
    [] o = "maxm" /\ b # 0 -> Write(tree, MaxR(tree), b)
    [] OTHER -> tree
\* the list in key order
Cols == {"cget", "cins", "crem", "cmrem"}
Keys256 == [i \in 1..256 |-> i]
InOrder(e, m) == LET s == SelectSeq(Keys256, LAMBDA k : k \in DOMAIN m) IN IF e[1] \in Cols THEN s ELSE [i \in 1..Len(s) |-> m[s[i]]]
CanCall(e) == e[4] = InOrder(e, After(e)) /\ (After(e) # EmptyMap => len = Len(e[4]))

TInit == Init /\ l = 1 /\ len = 0 /\ bad = FALSE
TNext ==
  /\ l <= Len(Trace) /\ ~bad /\ UNCHANGED obs
  /\ LET e == Trace[l] IN
     CASE e[1] = "run" -> tree' = EmptyMap /\ len' = 0 /\ l' = l + 1 /\ bad' = FALSE
       [] e[1] \in ListOps -> IF CanList(e) THEN len' = LenAfter(e) /\ l' = l + 1 /\ UNCHANGED <<tree, bad>>
                              ELSE bad' = TRUE /\ UNCHANGED <<tree, l, len>> /\ PrintT("DEVIATION " \o ToString(l) \o " list of " \o ToString(len))
       [] OTHER -> IF CanCall(e)
                   THEN tree' = After(e) /\ len' = Len(e[4]) /\ l' = l + 1 /\ UNCHANGED bad
                   ELSE bad' = TRUE /\ UNCHANGED <<tree, l, len>> /\ PrintT("DEVIATION " \o ToString(l) \o " expected " \o ToString(InOrder(e, After(e))))
TSpec == TInit /\ [][TNext]_lvars
Conforms == ~bad
Track == TLCSet(1, l')
Consumed == PrintT("CONSUMED " \o ToString(<<TLCGet(1), Len(Trace)>>)) /\ TLCGet(1) > Len(Trace)
=============================================================================
