------------------------------- MODULE IterN -------------------------------
(***************************************************************************)
(* VebIter over a tree with the keys 1..n (the iterator only compares keys *)
(* and asks for neighbours, so any contents of n entries look like this),  *)
(* with the tree's neighbour queries spelled out.  MCIter shows with TLC   *)
(* that VebIter takes these steps; IterProof proves, for every n and every *)
(* interleaving of the two ends, that each entry comes exactly once, in    *)
(* order from each end, and that a finished iterator stays finished.       *)
(***************************************************************************)
EXTENDS Integers
VARIABLES n, pc, fk, bk, emitted, f, b,
          dir, got      \* last call: 0 from the front, 1 from the back; the key it yielded, or 0
ivars == <<n, pc, fk, bk, emitted, f, b, dir, got>>
Init == /\ n \in Nat /\ n > 0 /\ pc = "start" /\ fk = 0 /\ bk = 0 /\ emitted = 0 /\ f = 0 /\ b = 0 /\ dir = 2 /\ got = 0
Succ(k) == IF k < n THEN k + 1 ELSE 0
Pred(k) == IF k > 1 THEN k - 1 ELSE 0
Front(k, p) == pc' = p /\ emitted' = emitted + 1 /\ dir' = 0 /\ got' = k /\ fk' = k /\ f' = f + 1 /\ UNCHANGED <<bk, b>>
Back(k, p) == pc' = p /\ emitted' = emitted + 1 /\ dir' = 1 /\ got' = k /\ bk' = k /\ b' = b + 1 /\ UNCHANGED <<fk, f>>
End(d) == pc' = "done" /\ dir' = d /\ got' = 0 /\ UNCHANGED <<fk, bk, f, b, emitted>>
StepFront == \/ pc = "done" /\ End(0)
             \/ pc = "start" /\ Front(1, "front")
             \/ pc = "front" /\ IF Succ(fk) = 0 THEN End(0) ELSE Front(Succ(fk), "front")
             \/ pc = "back" /\ IF bk = 1 THEN End(0) ELSE Front(1, "both")
             \/ pc = "both" /\ IF Succ(fk) = 0 \/ Succ(fk) = bk THEN End(0) ELSE Front(Succ(fk), "both")
StepBack == \/ pc = "done" /\ End(1)
            \/ pc = "start" /\ Back(n, "back")
            \/ pc = "back" /\ IF Pred(bk) = 0 THEN End(1) ELSE Back(Pred(bk), "back")
            \/ pc = "front" /\ IF fk = n THEN End(1) ELSE Back(n, "both")
            \/ pc = "both" /\ IF Pred(bk) = 0 \/ Pred(bk) = fk THEN End(1) ELSE Back(Pred(bk), "both")
Next == (StepFront \/ StepBack) /\ n' = n
Spec == Init /\ [][Next]_ivars

Inv == /\ n \in Nat /\ n > 0 /\ f \in Nat /\ b \in Nat /\ f + b <= n /\ emitted = f + b
       /\ pc \in {"start", "front", "back", "both", "done"}
       /\ pc = "start" => f = 0 /\ b = 0
       /\ pc = "front" => fk = f /\ f > 0 /\ b = 0
       /\ pc = "back" => bk = n + 1 - b /\ b > 0 /\ f = 0
       /\ pc = "both" => fk = f /\ bk = n + 1 - b /\ f > 0 /\ b > 0 /\ Succ(fk) # 0 /\ Pred(bk) # 0
       /\ pc = "done" => f + b = n
\* a call yields the next entry of its end while any is left, and nothing from then on
Right == IF f + b = n THEN got' = 0 /\ f' = f /\ b' = b
         ELSE \/ dir' = 0 /\ got' = f + 1 /\ f' = f + 1 /\ b' = b
              \/ dir' = 1 /\ got' = n - b /\ b' = b + 1 /\ f' = f
\* hints derived from any correct bounds on the size bracket what is left, and the upper one never underflows
Sat(x) == IF x < 0 THEN 0 ELSE x
Hinted == \A lo \in Nat, hi \in Nat : lo <= n /\ n <= hi =>
   IF pc = "done" THEN n - (f + b) = 0
   ELSE Sat(lo - emitted) <= n - (f + b) /\ n - (f + b) <= hi - emitted /\ hi - emitted >= 0
=============================================================================
