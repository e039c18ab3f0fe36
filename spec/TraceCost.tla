----------------------------- MODULE TraceCost -----------------------------
(***************************************************************************)
(* Recorded work (comparisons, splits, joins, hashes and slot computations *)
(* on keys, accesses to collections and array slots, allocations, during   *)
(* one call or one step of an iteration), to be held against the cost model   *)
(* of VebTree.tla: there every operation starts at most 2*Levels-1         *)
(* operations on nodes (a lookup at most Levels), Levels being the number  *)
(* of times the key type splits, plus one.  A node does a fixed amount of  *)
(* work itself, so a call does at most a constant times Levels, whatever   *)
(* the tree holds.                                                         *)
(*                                                                         *)
(*   <<"tree", name, levels, 0, 0, <<>>>>   a key type and assembly        *)
(*   <<"work", op, size, total, key, <<c,s,j,h,i,a,m>>>>   the call of     *)
(*          this kind with the most work on keys (c..i) seen on some       *)
(*          content of that size, and the most accesses (a) and            *)
(*          allocations (m) of any such call                               *)
(*                                                                         *)
(*   <<"parts", ...>>   the same, where the collections are hash tables and *)
(*          the work on keys of the updates is judged together:            *)
(*   <<"life", op, size, calls, "", <<<<w, n>>, ...>>>>   of the updates   *)
(*          in a part of the life of one tree, n took w work (w < 10 left out)       *)
(* A hash table rehashes itself now and then.  What the updates of a life  *)
(* take beyond the limit is at most Spare per update and entry.            *)
(*                                                                         *)
(* The limits per node are about twice what one node does in the code as   *)
(* it stands.                                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, levels, bad
vars == <<l, levels, bad>>

Nodes(op) == CASE op \in {"find", "findm"} -> levels
               [] op \in {"min", "max", "minm", "maxm", "ismonad", "len", "into"} -> 1
               [] OTHER                    -> 2 * levels - 1
PerNode == 10
AccessesPerNode == 4
AllocationsPerNode == 4
Sum(s) == s[1] + s[2] + s[3] + s[4] + s[5]
Spare == 4
RECURSIVE Excess(_, _, _)
Excess(h, limit, i) == IF i = 0 THEN 0 ELSE (IF h[i][1] > limit THEN (h[i][1] - limit) * h[i][2] ELSE 0) + Excess(h, limit, i - 1)
Fits(e) == CASE e[1] = "tree" -> e[3] >= 1
             [] e[1] = "life" -> Excess(e[6], PerNode * Nodes(e[2]), Len(e[6])) <= Spare * (e[3] + e[4])
             [] e[1] \in {"work", "parts"} ->
                                  Sum(e[6]) = e[4] /\ (e[1] = "work" => e[4] <= PerNode * Nodes(e[2]))
                                  /\ e[6][6] <= AccessesPerNode * Nodes(e[2])
                                  /\ e[6][7] <= AllocationsPerNode * Nodes(e[2])
             [] OTHER -> FALSE

Init == l = 1 /\ levels = 0 /\ bad = FALSE
Next == /\ l <= Len(Trace) /\ ~bad
        /\ LET e == Trace[l] IN
           IF ~Fits(e) THEN bad' = TRUE /\ UNCHANGED <<l, levels>> /\ PrintT("DEVIATION " \o ToString(l))
           ELSE l' = l + 1 /\ bad' = FALSE /\ levels' = IF e[1] = "tree" THEN e[3] ELSE levels
Spec == Init /\ [][Next]_vars
Conforms == ~bad
Track == TLCSet(1, l')
Consumed == PrintT("CONSUMED " \o ToString(<<TLCGet(1), Len(Trace)>>)) /\ TLCGet(1) > Len(Trace)
=============================================================================
