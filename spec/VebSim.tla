------------------------------- MODULE VebSim -------------------------------
(***************************************************************************)
(* Long random behaviours of VebMap in which every stored value is fresh   *)
(* (a version counter), so a misplaced, stale or mixed-up value can never  *)
(* coincide with the right one.  Run with -simulate; exactly one successor *)
(* is generated per state and every transition is printed for replay.      *)
(* Behaviours alternate between growing, churning and shrinking phases.    *)
(***************************************************************************)
EXTENDS VebMap
CONSTANT Phase     \* steps per phase
VARIABLES n        \* steps taken so far; also the next fresh value

svars == <<tree, obs, n>>
SimInit == Init /\ n = 1

\* The dummy argument keeps TLC from evaluating the choice once and for all.
Pick(S, i) == RandomElement(S)
\* bias: a stored key with even chance, so that hits are as common as misses
Hit(i) == IF Pick(1..2, i) = 1 THEN Pick(DOMAIN tree, i) ELSE Pick(Key, i)
PhaseNo == (n \div Phase) % 4

\* insertion / removal percentages of the four phases
InsPct == <<55, 25, 10, 30>>[PhaseNo + 1]
RemPct == <<10, 25, 55, 30>>[PhaseNo + 1]

DoRemove(c, k) == CASE c = 1 -> RemoveMin [] c = 2 -> RemoveMax [] OTHER -> Remove(k)
DoQuery(c, k, w) ==
    CASE c \in {1, 2} -> Find(k) [] c \in {3, 4} -> Pred(k) [] c \in {5, 6} -> Succ(k)
      [] c = 7 -> FindMut(k, w) [] c = 8 -> PredMut(k, w) [] c = 9 -> SuccMut(k, w)
      [] c = 10 -> MinMut(w) [] c = 11 -> MaxMut(w)
      [] c = 12 -> MinVal [] c = 13 -> MaxVal [] c = 14 -> IsMonad
      [] c = 15 -> Count [] c = 16 -> IntoMonad
      [] OTHER -> Dump
SimNext ==
  /\ n' = n + 1
  /\ IF ~Live THEN \E k \in {Pick(Key, n)} : FromMonad(k, n)
     ELSE \E p \in {Pick(1..100, n)}, c \in {Pick(1..160, n)}, k \in {Hit(n)} :
            IF p <= InsPct THEN Insert(k, n)
            ELSE IF p <= InsPct + RemPct THEN DoRemove((c % 4) + 1, k)
            ELSE DoQuery((c % 17) + (IF c > 16 /\ c % 17 = 16 THEN 0 ELSE 1), k, IF c % 3 = 0 THEN 0 ELSE n)
SimSpec == SimInit /\ [][SimNext]_svars
EmitSim == PrintT("S " \o ToString(<<obs', Sorted(tree')>>))
=============================================================================
