------------------------------- MODULE MCIter ------------------------------
(* VebIter takes IterN's steps. *)
EXTENDS VebIter
I == INSTANCE IterN WITH n <- N, dir <- obs[1], got <- IF obs[2] = None THEN 0 ELSE obs[2][1]
IterSpec == I!Spec
IterInv == I!Inv
=============================================================================
