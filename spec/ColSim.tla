------------------------------- MODULE ColSim -------------------------------
(* Long random behaviours of Collection with fresh values (run with -simulate). *)
EXTENDS Collection
CONSTANT Phase
VARIABLE n
svars == <<col, obs, n>>
Pick(S, i) == RandomElement(S)
SimInit == Init /\ n = 1
HitH(i) == IF Pick(1..2, i) = 1 THEN Pick(DOMAIN col, i) ELSE Pick(Hi, i)
\* fills the collection completely
New(i) == IF Hi \subseteq DOMAIN col THEN Pick(Hi, i) ELSE Pick(Hi \ DOMAIN col, i)
PhaseNo == (n \div Phase) % 4
InsPct == <<94, 40, 15, 50>>[PhaseNo + 1]
DoRemove(c, h, l) ==
    LET w == (c % 6) + 1 IN
    IF c % 2 = 0 /\ Has(h)
    THEN CASE w \in {1, 2, 4} -> RemoveKey(h, w, 0, 0)
           [] w = 3 -> RemoveKey(h, 3, MinR(col[h])[1], 0)
           [] w = 5 -> RemoveKey(h, 5, l, n)
           [] OTHER -> RemoveKey(h, 4, 0, 0)
    ELSE CASE w \in {1, 2, 4, 6} -> MaybeRemoveKey(h, w, 0, 0)
           [] w = 3 -> MaybeRemoveKey(h, 3, l, 0)
           [] OTHER -> MaybeRemoveKey(h, 5, l, n)
SimNext ==
  /\ n' = n + 1
  /\ IF ~Live THEN \E h \in {Pick(Hi, n)}, l \in {Pick(Lo, n)} : Create(h, Single(l, n))
     ELSE \E p \in {Pick(1..100, n)}, c \in {Pick(0..60, n)}, h \in {HitH(n)}, l \in {Pick(Lo, n)} :
            IF p <= InsPct
            THEN IF c % 6 = 0 /\ Has(h) THEN GetMutInsert(h, l, n)
                 ELSE IF c % 2 = 0 THEN InsertKey(h, l, n)
                 ELSE \E g \in {IF PhaseNo = 0 /\ c % 2 = 1 THEN New(n) ELSE Pick(Hi, n)} : InsertKey(g, l, n)
            ELSE IF p <= 96 THEN DoRemove(c, h, l)
            ELSE IF c % 2 = 0 THEN Get(h) ELSE GetMut(h)
Rows(c) == [h \in 1..Cardinality(Hi) |-> IF h \in DOMAIN c THEN Row(c[h]) ELSE <<>>]
EmitSim == PrintT("S " \o ToString(<<obs', Rows(col')>>))
=============================================================================
