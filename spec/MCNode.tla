------------------------------- MODULE MCNode ------------------------------
(***************************************************************************)
(* The top node of VebTree takes the steps of VebNode and answers with its *)
(* queries, whatever its parts are nested from.  Since every part of a     *)
(* tree is the top of its own nesting, VebNode's theorem (proved for       *)
(* halves of any size) applies to the nodes of every tree.                 *)
(***************************************************************************)
EXTENDS MCVebTree
CONSTANT NoVal
Pair(k) == <<Hi(Top, k), Lo(Top, k)>>
Zero == <<0, 0>>
SomeVal == CHOOSE v \in Val : TRUE
Two == Live /\ T.max # None
kidV == IF ~Live THEN EmptyMap
        ELSE [k \in {Join(Top, h, l) : h \in DOMAIN T.kids, l \in 0..Size(Top.lo) - 1} |->
                 LET a == Abs(Top.lo, T.kids[Hi(Top, k)]) IN
                 IF Lo(Top, k) \in DOMAIN a THEN a[Lo(Top, k)] ELSE NoVal]
N == INSTANCE VebNode WITH
  HiEnd <- Size(Top.hi) - 1, LoEnd <- Size(Top.lo) - 1, None <- NoVal,
  live <- Live, two <- Two,
  min <- IF Live THEN Pair(T.min[1]) ELSE Zero, minv <- IF Live THEN T.min[2] ELSE SomeVal,
  max <- IF Two THEN Pair(T.max[1]) ELSE Zero, maxv <- IF Two THEN T.max[2] ELSE SomeVal,
  kid <- [p \in (0..Size(Top.hi) - 1) \X (0..Size(Top.lo) - 1) |->
             LET k == Join(Top, p[1], p[2]) IN IF k \in DOMAIN kidV THEN kidV[k] ELSE NoVal],
  sum <- IF Live /\ T.sum # None THEN DOMAIN Abs(Top.hi, T.sum[1]) ELSE {}
NodeSpec == N!Spec
NodeInv == N!Inv
Ans(e) == IF e = None THEN NoVal ELSE Pair(e[1])
NodeQueries == Live => \A k \in Key : /\ N!SuccIs(Pair(k), Ans(TSucc(Top, T, k).r))
                                      /\ N!PredIs(Pair(k), Ans(TPred(Top, T, k).r))
(* and what the node holds is what the tree holds *)
NodeHolds == \A k \in Key : N!At(Pair(k)) = IF k \in DOMAIN M THEN M[k] ELSE NoVal
=============================================================================
