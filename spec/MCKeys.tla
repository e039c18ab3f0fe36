------------------------------- MODULE MCKeys -------------------------------
(* The facts about Keys that make it an adequate reference, for small digit *)
(* counts and bases.                                                        *)
EXTENDS Keys, FiniteSets, TLC
CONSTANTS Base, N, H           \* N digits, of which H high

Digits == 0..(Base - 1)
Keys == [1..N -> Digits]
His  == [1..H -> Digits]
Los  == [1..(N - H) -> Digits]
Pairs == His \X Los

VARIABLES k,                   \* the key at hand
          form                 \* "whole" or "parts": a split key can be joined, a joined one split
vars == <<k, form>>
Init == k \in Keys /\ form = "whole"
Split == form = "whole" /\ form' = "parts" /\ k' = Cut(k, H)
Join  == form = "parts" /\ form' = "whole" /\ k' = k[1] \o k[2]
Next == Split \/ Join
Spec == Init /\ [][Next]_vars

TypeOK == IF form = "whole" THEN k \in Keys ELSE k \in Pairs
RoundTrip == /\ form = "whole" => LET p == Cut(k, H) IN p[1] \o p[2] = k
             /\ form = "parts" => Cut(k[1] \o k[2], H) = k
Ordered == form = "whole" => \A m \in Keys : Sign(k, m) = PairSign(Cut(k, H), Cut(m, H))
\* every key can be reached by joining: split is onto
Onto == \A p \in Pairs : \E m \in Keys : Cut(m, H) = p
RankOrder == form = "whole" => /\ Rank(k, Base) \in 0..(Cardinality(Keys) - 1)
                               /\ \A m \in Keys : (Sign(k, m) = -1) = (Rank(k, Base) < Rank(m, Base))

\* as numbers, cutting divides, joining multiplies and adds, and the slot is the number itself
I == INSTANCE IntKeys WITH H <- Base ^ H, L <- Base ^ (N - H), Min <- 0
Numbers == form = "whole" => LET n == Rank(k, Base)
                                p == Cut(k, H)
                            IN /\ n \in I!Dom /\ I!Slot(n) = n
                               /\ I!Hi(n) = Rank(p[1], Base) /\ I!Lo(n) = Rank(p[2], Base)
                               /\ I!Join(Rank(p[1], Base), Rank(p[2], Base)) = n
                               /\ \A M \in 1..Base ^ N : 2 * M = Base ^ N => I!SJoin(I!Hi(n), I!Lo(n), M) = n - M
                               /\ \A m \in Keys : (Sign(k, m) = -1) = (n < Rank(m, Base))

\* uniqueness (parameterised so that TLC does not evaluate it for the larger instances)
Below(m) == {x \in Keys : Sign(x, m) = -1}
SplitLike(f) == /\ \A x \in Keys, y \in Keys : Sign(x, y) = PairSign(f[x], f[y])
                /\ \A p \in Pairs : \E x \in Keys : f[x] = p
OneSplit(K) == {f \in [K -> Pairs] : SplitLike(f)} = {[x \in Keys |-> Cut(x, H)]}
SlotLike(f) == \A x \in Keys, y \in Keys : Sign(x, y) = -1 => f[x] < f[y]
OneSlot(K) == {f \in [K -> 0..(Cardinality(K) - 1)] : SlotLike(f)} = {[x \in Keys |-> Rank(x, Base)]}
ASSUME Base ^ N <= 6 => OneSplit(Keys) /\ OneSlot(Keys)
=============================================================================
