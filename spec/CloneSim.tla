------------------------------ MODULE CloneSim ------------------------------
(* Long random behaviours of VebClone with fresh values (run with -simulate). *)
EXTENDS VebClone
CONSTANT Phase
VARIABLE n
Pick(S, i) == RandomElement(S)
SimInit == Init /\ n = 1
PhaseNo == (n \div Phase) % 4
InsPct == <<60, 30, 20, 40>>[PhaseNo + 1]
AliveSet == {i \in Handle : Live(i)}
Hit(i, c) == IF Pick(1..2, c) = 1 THEN Pick(DOMAIN t[i], c) ELSE Pick(Key, c)
Upd(i, c, k) == CASE c % 12 = 0 -> FindMut(i, k, n) [] c % 12 = 1 -> PredMut(i, k, n) [] c % 12 = 2 -> SuccMut(i, k, n)
                  [] c % 12 = 3 -> MinMut(i, n) [] c % 12 = 4 -> MaxMut(i, n)
                  [] c % 12 \in {5, 6} -> RemoveMin(i) [] c % 12 \in {7, 8} -> RemoveMax(i) [] OTHER -> Remove(i, k)
SimNext ==
  /\ n' = n + 1
  /\ IF NoTree THEN \E k \in {Pick(Key, n)} : From(1, k, n)
     ELSE \E i \in {Pick(AliveSet, n)}, p \in {Pick(1..100, n)}, c \in {Pick(0..59, n)} :
          \E k \in {Hit(i, n)} :
            IF p <= InsPct THEN Insert(i, k, n)
            ELSE IF p >= 96 THEN \E j \in {Pick(Handle \ {i}, n)} : Clone(i, j)
            ELSE IF p = 95 /\ Cardinality(AliveSet) > 1 THEN Drop(i)
            ELSE Upd(i, c, k)
Rows(x) == [i \in 1..Cardinality(Handle) |-> Sorted(x[i])]
EmitSim == PrintT("S " \o ToString(<<obs', Rows(t')>>))
=============================================================================
