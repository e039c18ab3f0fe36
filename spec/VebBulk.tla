------------------------------ MODULE VebBulk -------------------------------
(***************************************************************************)
(* The tree interface over very large contents.  VebMap keeps every entry  *)
(* in its state, which limits it to contents of some hundred keys; here    *)
(* the contents are a set of disjoint, non-adjacent intervals of keys, the *)
(* value of a key is the key itself except for a finite set of overridden  *)
(* keys.  Calls cost the same however many keys there are, so runs with    *)
(* tens of thousands of entries can be validated (TraceBulk.tla).          *)
(*                                                                         *)
(* VebBulk refines VebMap under Abs (checked by MCBulk on small domains).  *)
(* Besides single calls it has runs: a stretch of calls of one kind on     *)
(* consecutive keys, taken as one step.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES parts,    \* set of <<first, last>>
          over,     \* function: overridden key -> value
          obs
bvars == <<parts, over, obs>>

Largest(S) == CHOOSE x \in S : \A y \in S : y <= x
Least(S) == CHOOSE x \in S : \A y \in S : y >= x
Live == parts # {}
Has(k) == \E p \in parts : p[1] <= k /\ k <= p[2]
ValueAt(k) == IF k \in DOMAIN over THEN over[k] ELSE k
E(k) == <<k, ValueAt(k)>>
RECURSIVE Count(_)
Count(ps) == IF ps = {} THEN 0 ELSE LET p == CHOOSE p \in ps : TRUE IN p[2] - p[1] + 1 + Count(ps \ {p})
MinKey == Least({p[1] : p \in parts})
MaxKey == Largest({p[2] : p \in parts})
Flag(b) == IF b THEN 1 ELSE 0

\* the intervals with first..last added (none of them present) or taken away (all present)
Add(ps, a, b) == LET near == {p \in ps : p[1] <= b + 1 /\ p[2] >= a - 1} IN
                 (ps \ near) \cup {<<Least({a} \cup {p[1] : p \in near}), Largest({b} \cup {p[2] : p \in near})>>}
Sub(ps, a, b) == LET hit == {p \in ps : p[1] <= b /\ p[2] >= a} IN
                 (ps \ hit) \cup {<<p[1], a - 1>> : p \in {p \in hit : p[1] < a}}
                            \cup {<<b + 1, p[2]>> : p \in {p \in hit : p[2] > b}}
SetAt(f, k, v) == IF v = k THEN [x \in DOMAIN f \ {k} |-> f[x]]
                  ELSE [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, a, b) == [x \in {x \in DOMAIN f : x < a \/ x > b} |-> f[x]]
NoOver == [x \in {} |-> 0]

FindR(k) == IF Has(k) THEN E(k) ELSE <<>>
PredR(k) == LET c == {IF p[2] < k THEN p[2] ELSE k - 1 : p \in {p \in parts : p[1] < k}} IN
            IF c = {} THEN <<>> ELSE E(Largest(c))
SuccR(k) == LET c == {IF p[1] > k THEN p[1] ELSE k + 1 : p \in {p \in parts : p[2] > k}} IN
            IF c = {} THEN <<>> ELSE E(Least(c))

Say(op, a, b, r) == obs' = <<op, a, b, r>>
Same == UNCHANGED <<parts, over>>

BInit == parts = {} /\ over = NoOver /\ obs = <<"init", 0, 0, <<>>>>

FromMonad(k, v) == ~Live /\ parts' = {<<k, k>>} /\ over' = SetAt(NoOver, k, v) /\ Say("from", k, v, <<>>)
Find(k)  == Live /\ Same /\ Say("find", k, 0, FindR(k))
Pred(k)  == Live /\ Same /\ Say("pred", k, 0, PredR(k))
Succ(k)  == Live /\ Same /\ Say("succ", k, 0, SuccR(k))
MinVal   == Live /\ Same /\ Say("min", 0, 0, E(MinKey))
MaxVal   == Live /\ Same /\ Say("max", 0, 0, E(MaxKey))
IsMonad  == Live /\ Same /\ Say("ismonad", 0, 0, <<Flag(Count(parts) = 1)>>)
Size     == Live /\ Same /\ Say("len", 0, 0, <<Count(parts)>>)
Mut(op, k, w, e) == /\ Live /\ Say(op, k, w, e) /\ UNCHANGED parts
                    /\ over' = IF w = 0 \/ e = <<>> THEN over ELSE SetAt(over, e[1], w)
FindMut(k, w) == Mut("findm", k, w, FindR(k))
PredMut(k, w) == Mut("predm", k, w, PredR(k))
SuccMut(k, w) == Mut("succm", k, w, SuccR(k))
MinMut(w)     == Live /\ Mut("minm", 0, w, E(MinKey))
MaxMut(w)     == Live /\ Mut("maxm", 0, w, E(MaxKey))
Insert(k, v) == /\ Live /\ Say("ins", k, v, FindR(k))
                /\ parts' = IF Has(k) THEN parts ELSE Add(parts, k, k)
                /\ over' = SetAt(over, k, v)
Take(k) == parts' = Sub(parts, k, k) /\ over' = Without(over, k, k)
Remove(k) == IF Live /\ Has(k)
             THEN Take(k) /\ Say("rem", k, 0, <<1, Flag(Count(parts) > 1)>> \o E(k))
             ELSE Live /\ Same /\ Say("rem", k, 0, <<0>>)
RemoveMin == Live /\ Take(MinKey) /\ Say("remmin", 0, 0, <<Flag(Count(parts) > 1)>> \o E(MinKey))
RemoveMax == Live /\ Take(MaxKey) /\ Say("remmax", 0, 0, <<Flag(Count(parts) > 1)>> \o E(MaxKey))
IntoMonad == /\ Live
             /\ IF Count(parts) = 1 THEN parts' = {} /\ over' = NoOver /\ Say("into", 0, 0, <<1>> \o E(MinKey))
                ELSE Same /\ Say("into", 0, 0, <<0>>)

(***************************************************************************)
(* Runs.  InsertRun(a, b): the absent keys from a to b (ascending, or      *)
(* descending if b < a) are inserted with their default values, each call  *)
(* returning nothing.  RemoveRun, PopMinRun, PopMaxRun: the keys from a to *)
(* b, all present with their default values, are taken one after another,  *)
(* each call reporting that entry and that something remains.  MissRun:    *)
(* removals of absent keys, all declined; ReplaceRun: insertions of        *)
(* present keys, each handing back the default entry.                      *)
(***************************************************************************)
Lower(a, b) == IF a < b THEN a ELSE b
Upper(a, b) == IF a < b THEN b ELSE a
Free(a, b) == \A p \in parts : p[2] < a \/ p[1] > b
Full(a, b) == \E p \in parts : p[1] <= a /\ b <= p[2]
Plain(a, b) == \A x \in DOMAIN over : x < a \/ x > b
InsertRun(a, b) == LET l == Lower(a, b)  u == Upper(a, b) IN
                   /\ Live /\ Free(l, u) /\ parts' = Add(parts, l, u) /\ UNCHANGED over /\ Say("insrun", a, b, <<>>)
MissRun(a, b) == Live /\ Free(Lower(a, b), Upper(a, b)) /\ Same /\ Say("missrun", a, b, <<>>)
ReplaceRun(a, b) == LET l == Lower(a, b)  u == Upper(a, b) IN Full(l, u) /\ Plain(l, u) /\ Same /\ Say("replacerun", a, b, <<>>)
TakeRun(l, u) == /\ Full(l, u) /\ Plain(l, u) /\ Count(parts) > u - l + 1
                 /\ parts' = Sub(parts, l, u) /\ UNCHANGED over
RemoveRun(a, b) == TakeRun(Lower(a, b), Upper(a, b)) /\ Say("remrun", a, b, <<>>)
PopMinRun(a, b) == a <= b /\ Live /\ MinKey = a /\ TakeRun(a, b) /\ Say("remminrun", a, b, <<>>)
PopMaxRun(a, b) == b <= a /\ Live /\ MaxKey = a /\ TakeRun(b, a) /\ Say("remmaxrun", a, b, <<>>)
=============================================================================
