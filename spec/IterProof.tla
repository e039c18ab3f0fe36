----------------------------- MODULE IterProof -----------------------------
(***************************************************************************)
(* For trees of any size and any interleaving of the two ends: each call   *)
(* yields the next entry of its end while one is left and nothing from     *)
(* then on (C09), the neighbour asked for always exists where the code     *)
(* unwraps it (C18), and the size hints bracket what is left (C10).        *)
(***************************************************************************)
EXTENDS IterN, TLAPS
LEMMA InitInv == Init => Inv
  BY DEF Init, Inv, Succ, Pred
LEMMA FrontStep == ASSUME Inv, StepFront, n' = n PROVE Inv' /\ Right
<1> USE DEF Inv, Right
<1>1. CASE pc = "done" /\ End(0) BY <1>1 DEF End
<1>2. CASE pc = "start" /\ Front(1, "front") BY <1>2 DEF Front
<1>3. CASE pc = "front" /\ IF Succ(fk) = 0 THEN End(0) ELSE Front(Succ(fk), "front") BY <1>3 DEF Front, End, Succ
<1>4. CASE pc = "back" /\ IF bk = 1 THEN End(0) ELSE Front(1, "both") BY <1>4 DEF Front, End, Succ, Pred
<1>5. CASE pc = "both" /\ IF Succ(fk) = 0 \/ Succ(fk) = bk THEN End(0) ELSE Front(Succ(fk), "both")
  BY <1>5 DEF Front, End, Succ, Pred
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5 DEF StepFront
LEMMA BackStep == ASSUME Inv, StepBack, n' = n PROVE Inv' /\ Right
<1> USE DEF Inv, Right
<1>1. CASE pc = "done" /\ End(1) BY <1>1 DEF End
<1>2. CASE pc = "start" /\ Back(n, "back") BY <1>2 DEF Back
<1>3. CASE pc = "back" /\ IF Pred(bk) = 0 THEN End(1) ELSE Back(Pred(bk), "back") BY <1>3 DEF Back, End, Pred
<1>4. CASE pc = "front" /\ IF fk = n THEN End(1) ELSE Back(n, "both") BY <1>4 DEF Back, End, Succ, Pred
<1>5. CASE pc = "both" /\ IF Pred(bk) = 0 \/ Pred(bk) = fk THEN End(1) ELSE Back(Pred(bk), "both")
  BY <1>5 DEF Back, End, Succ, Pred
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5 DEF StepBack
THEOREM Safe == Spec => []Inv /\ [][Right]_ivars
<1>1. Inv /\ [Next]_ivars => Inv' /\ [Right]_ivars
  <2> SUFFICES ASSUME Inv, [Next]_ivars PROVE Inv' /\ [Right]_ivars OBVIOUS
  <2>1. CASE Next BY <2>1, FrontStep, BackStep DEF Next
  <2>2. CASE UNCHANGED ivars BY <2>2 DEF ivars, Inv, Succ, Pred
  <2> QED BY <2>1, <2>2
<1>2. Init => Inv BY InitInv
<1> QED BY <1>1, <1>2, PTL DEF Spec
THEOREM Hints == Inv => Hinted
  BY DEF Inv, Hinted, Sat
=============================================================================
