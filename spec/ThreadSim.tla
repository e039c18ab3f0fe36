------------------------------ MODULE ThreadSim -----------------------------
(* Long random behaviours of Threads with fresh values (run with -simulate). *)
EXTENDS Threads
CONSTANT Phase
VARIABLE n
Pick(S, i) == RandomElement(S)
SimInit == Init /\ n = 1
InsPct == <<60, 35, 20, 45>>[((n \div Phase) % 4) + 1]
Own(p) == {i \in Tree : at[i] = p}
Free == {i \in Tree : at[i] = 0}
Ice == {i \in Tree : at[i] = -1}
Hit(i, c) == IF Pick(1..2, c) = 1 THEN Pick(DOMAIN t[i], c) ELSE Pick(Key, c)
OpOf(c) == IF c <= InsPct THEN "ins" ELSE <<"rem", "remmin", "remmax", "findm", "find", "pred", "succ", "min", "max", "rem">>[(c % 10) + 1]
SimNext ==
  /\ n' = n + 1
  /\ \E p \in {Pick(Thread, n)}, c \in {Pick(1..100, n)}, h \in {Pick(1..200, n)} :
       IF Free # {} /\ (Own(p) = {} \/ h <= 4) THEN \E i \in {Pick(Free, n)}, k \in {Pick(Key, n)} : From(p, i, k, n)
       ELSE IF Own(p) # {} /\ h \in 5..7 THEN \E i \in {Pick(Own(p), n)} : Freeze(p, i)
       ELSE IF Own(p) # {} /\ h \in 8..10 THEN \E i \in {Pick(Own(p), n)}, q \in {Pick(Thread \ {p}, n)} : Send(p, q, i)
       ELSE IF Own(p) # {} /\ h = 11 THEN \E i \in {Pick(Own(p), n)} : Drop(p, i)
       ELSE IF Ice # {} /\ (Own(p) = {} \/ h \in 12..15) THEN \E i \in {Pick(Ice, n)} : Take(p, i)
       ELSE IF Ice # {} /\ h >= 130
            THEN \E i \in {Pick(Ice, n)}, op \in {Pick(Reads, n)} : \E k \in {Hit(i, n)} : Call(p, i, op, k, n)
       ELSE IF Own(p) # {}
            THEN \E i \in {Pick(Own(p), n)} : \E k \in {Hit(i, n)} : Call(p, i, OpOf(c), k, n)
       ELSE \E q \in {Pick({x \in Thread : Own(x) # {}}, n)} : \E i \in {Pick(Own(q), n)} : Send(q, p, i)
Rows(x) == [i \in 1..Cardinality(Tree) |-> Sorted(x[i])]
EmitSim == PrintT("S " \o ToString(<<obs', [i \in 1..Cardinality(Tree) |-> at'[i]], Rows(t')>>))
=============================================================================
