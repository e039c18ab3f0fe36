----------------------------- MODULE ColDesign -----------------------------
(***************************************************************************)
(* How the shipped collections keep their subtrees, as the code does it:   *)
(*   array: one slot per high key and the number of filled slots;          *)
(*   bytes: the set of the high keys present and the list of the subtrees  *)
(*          in key order, a subtree's position being the number of smaller *)
(*          high keys present.                                             *)
(* (A hash collection is the map itself.)  Both are run side by side with  *)
(* the map they stand for.  Subtrees are opaque values; a remover gives    *)
(* back any subtree, or None.  ColProof proves Inv for 0..N with any N.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Tree, None
ASSUME Given == N \in Nat /\ None \notin Tree
VARIABLES abs,            \* the map: a subtree or None for every high key
          slots, count,   \* array
          set, list,      \* bytes
          ans             \* what the last call reported: <<new or vanished, anything left>>, by map, array, bytes
vars == <<abs, slots, count, set, list, ans>>
Hi == 0..N
Filled(f) == {h \in Hi : f[h] # None}
Rank(S, h) == Cardinality({b \in S : b < h})
Pos(h) == 1 + Rank(set, h)
InsertAt(s, p, t) == [i \in 1..(Len(s) + 1) |-> IF i < p THEN s[i] ELSE IF i = p THEN t ELSE s[i - 1]]
RemoveAt(s, p) == [i \in 1..(Len(s) - 1) |-> IF i < p THEN s[i] ELSE s[i + 1]]
SetAt(s, p, t) == [i \in 1..Len(s) |-> IF i = p THEN t ELSE s[i]]

NoTree == [h \in Hi |-> None]
Init == /\ abs = NoTree /\ slots = NoTree /\ count = 0 /\ set = {} /\ list = <<>>
        /\ ans = << <<FALSE, FALSE>>, <<FALSE, FALSE>>, <<FALSE, FALSE>> >>
Live == set # {}

Create(h, t) ==
    /\ ~Live
    /\ abs' = [NoTree EXCEPT ![h] = t]
    /\ slots' = [NoTree EXCEPT ![h] = t] /\ count' = 1
    /\ set' = {h} /\ list' = <<t>>
    /\ ans' = [i \in 1..3 |-> <<TRUE, TRUE>>]
\* a lookup for writing, or an insert that finds a subtree: the subtree at h becomes t
Change(h, t) ==
    /\ Live /\ h \in set
    /\ abs' = [abs EXCEPT ![h] = t]
    /\ slots' = [slots EXCEPT ![h] = t] /\ UNCHANGED <<count, set>>
    /\ list' = SetAt(list, Pos(h), t)
    /\ ans' = [i \in 1..3 |-> <<FALSE, TRUE>>]
\* insert_key: each looks in its own storage whether h is there
Insert(h, t) ==
    /\ Live /\ abs[h] = None
    /\ abs' = [abs EXCEPT ![h] = t]
    /\ slots[h] = None /\ slots' = [slots EXCEPT ![h] = t] /\ count' = count + 1
    /\ h \notin set /\ set' = set \cup {h} /\ list' = InsertAt(list, Pos(h), t)
    /\ ans' = [i \in 1..3 |-> <<TRUE, TRUE>>]
\* remove_key and the successful maybe_remove_key: the remover gives back t (None: nothing is left of the subtree)
Remove(h, t) ==
    /\ Live /\ abs[h] # None
    /\ abs' = [abs EXCEPT ![h] = t]
    /\ slots' = [slots EXCEPT ![h] = t]
    /\ count' = IF t = None THEN count - 1 ELSE count
    /\ IF t = None THEN set' = set \ {h} /\ list' = RemoveAt(list, Pos(h))
                   ELSE set' = set /\ list' = SetAt(list, Pos(h), t)
    /\ ans' = << <<t = None, Filled(abs') # {}>>, <<t = None, count' # 0>>, <<t = None, Len(list') # 0>> >>
Next == \E h \in Hi : \/ \E t \in Tree : Create(h, t) \/ Change(h, t) \/ Insert(h, t) \/ Remove(h, t)
                      \/ Remove(h, None)
Spec == Init /\ [][Next]_vars

TypeOK == /\ abs \in [Hi -> Tree \cup {None}] /\ slots \in [Hi -> Tree \cup {None}]
          /\ count \in Nat /\ set \in SUBSET Hi /\ list \in Seq(Tree)
\* the array is the map, and its count decides emptiness
ArrayOK == slots = abs /\ count = Cardinality(Filled(abs))
\* the set is the map's domain, and every key finds its subtree at its position
BytesOK == /\ set = Filled(abs)
           /\ Len(list) = Cardinality(set)
           /\ \A h \in set : Pos(h) \in 1..Len(list) /\ list[Pos(h)] = abs[h]
\* all three say the same
Agree == ans[1] = ans[2] /\ ans[1] = ans[3]
Inv == TypeOK /\ ArrayOK /\ BytesOK /\ Agree
\* an insert is possible in all storages exactly where the map has nothing (no guard of theirs blocks it)
Possible == \A h \in Hi : (abs[h] = None) <=> (slots[h] = None) /\ (h \notin set)
=============================================================================
