------------------------------ MODULE VebIter -------------------------------
(***************************************************************************)
(* The iterator of src/iter.rs as a state machine, refining the abstract   *)
(* double-ended walk IterStep of OrdMap.  It keeps no cursor into the      *)
(* tree: it remembers the last key taken from each end and asks the tree   *)
(* for the neighbour.                                                      *)
(*                                                                         *)
(* The keys are 1..n: the machine only compares keys and asks for          *)
(* neighbours, so any contents of n entries is isomorphic to these.        *)
(***************************************************************************)
EXTENDS OrdMap
CONSTANTS Max,      \* largest number of entries
          Defect    \* "none", or the name of a deliberate deviation

VARIABLES m,        \* the tree iterated over
          pc,       \* "start", "front", "back", "both" or "done"
          fk, bk,   \* last keys taken from the front / the back
          emitted,  \* entries yielded so far
          f, b,     \* history: how many from each end
          obs
ivars == <<m, pc, fk, bk, emitted, f, b, obs>>

Init == /\ \E n \in 1..Max : m = [x \in 1..n |-> 100 + x]
        /\ pc = "start" /\ fk = 0 /\ bk = 0 /\ emitted = 0 /\ f = 0 /\ b = 0
        /\ obs = <<2, None>>

Yield(dir, e, p) ==
  /\ pc' = p /\ emitted' = emitted + 1 /\ obs' = <<dir, e>>
  /\ IF dir = 0 THEN fk' = e[1] /\ f' = f + 1 /\ UNCHANGED <<bk, b>>
     ELSE bk' = e[1] /\ b' = b + 1 /\ UNCHANGED <<fk, f>>
End(dir) == pc' = "done" /\ obs' = <<dir, None>> /\ UNCHANGED <<fk, bk, f, b, emitted>>

Next_ ==
  CASE pc = "done"  -> End(0)
    [] pc = "start" -> Yield(0, MinR(m), "front")
    [] pc = "front" -> LET s == SuccR(m, fk) IN IF s = None THEN End(0) ELSE Yield(0, s, "front")
    [] pc = "back"  -> LET s == MinR(m) IN IF s[1] = bk /\ Defect # "no-meet" THEN End(0) ELSE Yield(0, s, "both")
    [] pc = "both"  -> LET s == SuccR(m, fk) IN IF s = None \/ s[1] = bk THEN End(0) ELSE Yield(0, s, "both")
NextBack ==
  CASE pc = "done"  -> End(1)
    [] pc = "start" -> Yield(1, MaxR(m), "back")
    [] pc = "back"  -> LET s == PredR(m, bk) IN IF s = None THEN End(1) ELSE Yield(1, s, "back")
    [] pc = "front" -> LET s == MaxR(m) IN IF s[1] = fk THEN End(1) ELSE Yield(1, s, "both")
    [] pc = "both"  -> LET s == PredR(m, bk) IN IF s = None \/ s[1] = fk THEN End(1) ELSE Yield(1, s, "both")
Next == (Next_ \/ NextBack) /\ UNCHANGED m
Spec == Init /\ [][Next]_ivars

N == Cardinality(DOMAIN m)
\* C09: every step yields what the abstract walk yields
StepRefines == obs'[2] = IterStep(Sorted(m), f, b, obs'[1])
C09_Refines == [][StepRefines]_ivars
\* C09: nothing twice, nothing missing, fused
C09_Disjoint == f + b <= N /\ emitted = f + b
C09_Fused == [][f + b = N => obs'[2] = None /\ f' + b' = N]_ivars
\* in state "both" the neighbour always exists
C18_NeverMissing == pc = "both" => SuccR(m, fk) # None /\ PredR(m, bk) # None
\* C10: hints derived from any correct bounds on the count bracket the rest
Sat(x) == IF x < 0 THEN 0 ELSE x
Hint(lo, hi) == IF pc = "done" THEN <<0, 0>> ELSE <<Sat(lo - emitted), hi - emitted>>
C10_Hint == \A lo \in 0..N, hi \in N..(N + 2) :
   LET h == Hint(lo, hi) IN h[1] <= N - f - b /\ N - f - b <= h[2] /\ h[2] >= 0

View == <<m, pc, fk, bk, emitted>>
EmitI == PrintT("I " \o ToString(<<N, f, b, obs'[1], IF obs'[2] = None THEN 0 ELSE obs'[2][1], f', b'>>))
=============================================================================
