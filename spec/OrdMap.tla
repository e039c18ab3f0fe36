------------------------------- MODULE OrdMap -------------------------------
(***************************************************************************)
(* The mathematical object a van Emde Boas tree stands for: a finite map   *)
(* from integers to values.  Every operation of the tree interface is      *)
(* given here as a pure operator; results are encoded as integer tuples so *)
(* that they can be printed, logged and compared uniformly:                *)
(*     no entry           <<>>                                             *)
(*     an entry           <<key, value>>                                   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

None == <<>>
Flag(b) == IF b THEN 1 ELSE 0

\* TLC enumerates a CHOOSE domain in ascending order, so MinOf stops at the
\* first element; MaxOf goes through the mirror image for the same reason.
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == -MinOf({-x : x \in S})

Kv(m, k)   == <<k, m[k]>>
Below(m, k) == {x \in DOMAIN m : x < k}
Above(m, k) == {x \in DOMAIN m : x > k}

FindR(m, k) == IF k \in DOMAIN m THEN Kv(m, k) ELSE None
MinR(m)     == Kv(m, MinOf(DOMAIN m))
MaxR(m)     == Kv(m, MaxOf(DOMAIN m))
PredR(m, k) == LET S == Below(m, k) IN IF S = {} THEN None ELSE Kv(m, MaxOf(S))
SuccR(m, k) == LET S == Above(m, k) IN IF S = {} THEN None ELSE Kv(m, MinOf(S))

Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Del(m, k)    == [x \in DOMAIN m \ {k} |-> m[x]]
\* overwrite the value of the entry named by a query result (no-op on None)
Write(m, e, w) == IF e = None THEN m ELSE [m EXCEPT ![e[1]] = w]

RECURSIVE SortedFrom(_, _)
SortedFrom(m, S) == IF S = {} THEN <<>>
                    ELSE LET k == MinOf(S) IN <<Kv(m, k)>> \o SortedFrom(m, S \ {k})
Sorted(m) == SortedFrom(m, DOMAIN m)

\* Double-ended iteration over a sorted read-out s: f entries have been taken
\* from the front and b from the back; dir 0 takes the next from the front,
\* dir 1 from the back.
IterStep(s, f, b, dir) == IF f + b = Len(s) THEN None
                          ELSE IF dir = 0 THEN s[f + 1] ELSE s[Len(s) - b]

EmptyMap == [x \in {} |-> 0]
Single(k, v) == [x \in {k} |-> v]
AllMaps(K, V) == UNION {[S -> V] : S \in SUBSET K}
=============================================================================
