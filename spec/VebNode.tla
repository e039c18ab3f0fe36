------------------------------ MODULE VebNode ------------------------------
(***************************************************************************)
(* One node of the tree over a summary and children that are already known *)
(* to behave: the induction step behind VebTree.tla, for high and low      *)
(* halves of any size.  The children are given by what they hold (kid),    *)
(* the summary by the set it stands for (sum), and the node reaches them   *)
(* only through operations of an ordered set or map.  Theorem Safe: every  *)
(* call keeps the structure right (C15) and changes the contents as OrdMap *)
(* says (C04-C06), and the queries read off the contents what OrdMap says  *)
(* (C01-C03), so a node over correct parts is correct, and by induction on *)
(* the nesting so is the tree.  Proved with TLAPS for halves of any size   *)
(* and any values (VebNodeProof.tla); MCNode.tla ties it to VebTree.tla.   *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS HiEnd, LoEnd,   \* the last high and low half
          Val, None
ASSUME Halves == HiEnd \in Nat /\ LoEnd \in Nat
Hi == 0..HiEnd
Lo == 0..LoEnd
Keys == Hi \X Lo
Least(S, a) == a \in S /\ \A b \in S : a <= b
Greatest(S, a) == a \in S /\ \A b \in S : b <= a
ASSUME NoVal == None \notin Val /\ None \notin Keys

Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

VARIABLES live, two, min, minv, max, maxv, kid, sum
vars == <<live, two, min, minv, max, maxv, kid, sum>>

(* what the child under h holds *)
Row(h) == {l \in Lo : kid[<<h, l>>] # None}
(* what the node holds *)
At(k) == IF ~live THEN None
         ELSE IF k = min THEN minv
         ELSE IF ~two THEN None
         ELSE IF k = max THEN maxv
         ELSE kid[k]

TypeOK == /\ live \in BOOLEAN /\ two \in BOOLEAN
          /\ min \in Keys /\ max \in Keys /\ minv \in Val /\ maxv \in Val
          /\ kid \in [Keys -> Val \cup {None}] /\ sum \in SUBSET Hi
Structure == /\ two => live /\ Less(min, max)
             /\ \A k \in Keys : kid[k] # None => two /\ Less(min, k) /\ Less(k, max)
             /\ \A h \in Hi : h \in sum <=> \E l \in Lo : kid[<<h, l>>] # None
Inv == TypeOK /\ Structure

-----------------------------------------------------------------------------
(* the code, call by call *)
Push(k, v) == kid' = [kid EXCEPT ![k] = v] /\ sum' = sum \cup {k[1]}
Take(k) == /\ kid' = [kid EXCEPT ![k] = None]
           /\ sum' = IF \E l \in Lo : l # k[2] /\ kid[<<k[1], l>>] # None THEN sum ELSE sum \ {k[1]}
AnyMin == min' \in Keys /\ minv' \in Val     \* a field that is not there
AnyMax == max' \in Keys /\ maxv' \in Val
FromMonad(k, v) == /\ ~live /\ live' = TRUE /\ two' = FALSE /\ min' = k /\ minv' = v
                   /\ AnyMax /\ UNCHANGED <<kid, sum>>
Insert(k, v) ==
  /\ live /\ live' = live
  /\ \/ k = min /\ minv' = v /\ UNCHANGED <<two, min, max, maxv, kid, sum>>
     \/ /\ ~two /\ Less(k, min)
        /\ two' = TRUE /\ min' = k /\ minv' = v /\ max' = min /\ maxv' = minv /\ UNCHANGED <<kid, sum>>
     \/ /\ ~two /\ Less(min, k)
        /\ two' = TRUE /\ max' = k /\ maxv' = v /\ UNCHANGED <<min, minv, kid, sum>>
     \/ /\ two /\ Less(k, min)
        /\ min' = k /\ minv' = v /\ Push(min, minv) /\ UNCHANGED <<two, max, maxv>>
     \/ two /\ k = max /\ maxv' = v /\ UNCHANGED <<two, min, minv, max, kid, sum>>
     \/ /\ two /\ Less(max, k)
        /\ max' = k /\ maxv' = v /\ Push(max, maxv) /\ UNCHANGED <<two, min, minv>>
     \/ /\ two /\ Less(min, k) /\ Less(k, max)
        /\ Push(k, v) /\ UNCHANGED <<two, min, minv, max, maxv>>
(* the lowest and the highest entry of the children *)
Lowest(k) == k \in Keys /\ Least(sum, k[1]) /\ Least(Row(k[1]), k[2])
Highest(k) == k \in Keys /\ Greatest(sum, k[1]) /\ Greatest(Row(k[1]), k[2])
PopMin ==
  /\ live
  /\ \/ ~two /\ live' = FALSE /\ AnyMin /\ AnyMax /\ UNCHANGED <<two, kid, sum>>
     \/ /\ two /\ sum = {} /\ live' = live
        /\ two' = FALSE /\ min' = max /\ minv' = maxv /\ AnyMax /\ UNCHANGED <<kid, sum>>
     \/ /\ two /\ sum # {} /\ live' = live
        /\ \E k \in Keys : Lowest(k) /\ min' = k /\ minv' = kid[k] /\ Take(k)
        /\ UNCHANGED <<two, max, maxv>>
PopMax ==
  /\ live
  /\ \/ ~two /\ live' = FALSE /\ AnyMin /\ AnyMax /\ UNCHANGED <<two, kid, sum>>
     \/ /\ two /\ sum = {} /\ live' = live
        /\ two' = FALSE /\ AnyMax /\ UNCHANGED <<min, minv, kid, sum>>
     \/ /\ two /\ sum # {} /\ live' = live
        /\ \E k \in Keys : Highest(k) /\ max' = k /\ maxv' = kid[k] /\ Take(k)
        /\ UNCHANGED <<two, min, minv>>
Remove(k) ==
  /\ live
  /\ \/ k = min /\ PopMin
     \/ two /\ k # min /\ k = max /\ PopMax
     \/ /\ two /\ k # min /\ k # max /\ kid[k] # None
        /\ Take(k) /\ UNCHANGED <<live, two, min, minv, max, maxv>>
     \/ k # min /\ (two => k # max /\ kid[k] = None) /\ UNCHANGED vars

Init == /\ live = FALSE /\ two = FALSE /\ min \in Keys /\ max \in Keys /\ minv \in Val /\ maxv \in Val
        /\ kid = [k \in Keys |-> None] /\ sum = {}
Next == \E k \in Keys : (\E v \in Val : FromMonad(k, v) \/ Insert(k, v)) \/ PopMin \/ PopMax \/ Remove(k)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* the code's neighbour queries: r is the answer, None if there is none *)
SuccIs(k, r) ==
  \/ Less(k, min) /\ r = min
  \/ ~Less(k, min) /\ (two => ~Less(k, max)) /\ r = None
  \/ /\ two /\ ~Less(k, min) /\ Less(k, max)
     /\ \/ sum = {} /\ r = max
        \/ sum # {} /\ k = min /\ Lowest(r)
        \/ /\ sum # {} /\ k # min
           /\ LET here == {l \in Row(k[1]) : k[2] < l}
                  above == {h \in sum : k[1] < h}
              IN \/ r \in Keys /\ r[1] = k[1] /\ Least(here, r[2])
                 \/ here = {} /\ r \in Keys /\ Least(above, r[1]) /\ Least(Row(r[1]), r[2])
                 \/ here = {} /\ above = {} /\ r = max
PredIs(k, r) ==
  \/ ~Less(min, k) /\ r = None
  \/ ~two /\ Less(min, k) /\ r = min
  \/ two /\ Less(max, k) /\ r = max
  \/ /\ two /\ Less(min, k) /\ ~Less(max, k)
     /\ \/ sum = {} /\ r = min
        \/ sum # {} /\ k = max /\ Highest(r)
        \/ /\ sum # {} /\ k # max
           /\ LET here == {l \in Row(k[1]) : l < k[2]}
                  below == {h \in sum : h < k[1]}
              IN \/ r \in Keys /\ r[1] = k[1] /\ Greatest(here, r[2])
                 \/ here = {} /\ r \in Keys /\ Greatest(below, r[1]) /\ Greatest(Row(r[1]), r[2])
                 \/ here = {} /\ below = {} /\ r = min

-----------------------------------------------------------------------------
(* what OrdMap says *)
First(k) == k \in Keys /\ At(k) # None /\ \A j \in Keys : At(j) # None => j = k \/ Less(k, j)
Last(k) == k \in Keys /\ At(k) # None /\ \A j \in Keys : At(j) # None => j = k \/ Less(j, k)
Sets(k, v) == \A j \in Keys : At(j)' = IF j = k THEN v ELSE At(j)
Right == /\ \A k \in Keys, v \in Val : FromMonad(k, v) \/ Insert(k, v) => Sets(k, v)
         /\ PopMin => \A k \in Keys : First(k) => Sets(k, None)
         /\ PopMax => \A k \in Keys : Last(k) => Sets(k, None)
         /\ \A k \in Keys : Remove(k) => Sets(k, None)
Successor(k, r) == IF r = None THEN \A j \in Keys : At(j) # None => ~Less(k, j)
                   ELSE /\ r \in Keys /\ At(r) # None /\ Less(k, r)
                        /\ \A j \in Keys : At(j) # None /\ Less(k, j) => j = r \/ Less(r, j)
Predecessor(k, r) == IF r = None THEN \A j \in Keys : At(j) # None => ~Less(j, k)
                     ELSE /\ r \in Keys /\ At(r) # None /\ Less(r, k)
                          /\ \A j \in Keys : At(j) # None /\ Less(j, k) => j = r \/ Less(j, r)
(* every query has exactly one answer, and it is the right one; every call can be made (no unwrap fails) *)
Answers == live => /\ First(min) /\ Last(IF two THEN max ELSE min)
                   /\ \A k \in Keys : /\ \E r \in Keys \cup {None} : SuccIs(k, r)
                                      /\ \A r \in Keys \cup {None} : SuccIs(k, r) => Successor(k, r)
                                      /\ \E r \in Keys \cup {None} : PredIs(k, r)
                                      /\ \A r \in Keys \cup {None} : PredIs(k, r) => Predecessor(k, r)
Callable == live /\ two /\ sum # {} => (\E k \in Keys : Lowest(k)) /\ (\E k \in Keys : Highest(k))
=============================================================================
