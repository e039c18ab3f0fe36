------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* The harness lets one key of VebMap stand for a block of consecutive     *)
(* real keys, all absent or all present with the same value.  A call on    *)
(* the specification's key r becomes calls on the keys of block r, in any  *)
(* order, and their results are read back as one result.  This module      *)
(* proves (for small constants) that the reading is right: if the concrete *)
(* map is the expansion of the abstract one, the expected concrete results *)
(* below are the ones an ordered map gives, and the concrete map after the *)
(* calls is the expansion of the abstract map after the call.              *)
(***************************************************************************)
EXTENDS OrdMap
CONSTANTS K, Val, MaxSize
Rank == 1..K
VARIABLES m,      \* the abstract map
          sz      \* block sizes
RECURSIVE Sum(_, _)
Sum(s, r) == IF r = 0 THEN 0 ELSE s[r] + Sum(s, r - 1)
First(r) == Sum(sz, r - 1) + 1
Last(r) == Sum(sz, r)
Block(r) == First(r)..Last(r)
Of(k) == CHOOSE r \in Rank : k \in Block(r)
Expand(a) == [k \in UNION {Block(r) : r \in DOMAIN a} |-> a[Of(k)]]
C == Expand(m)
\* a concrete entry as an abstract one
Lift(e) == IF e = None THEN None ELSE <<Of(e[1]), e[2]>>

\* all keys of a set inserted, removed, overwritten one at a time in ascending or descending order or any other:
\* the result does not depend on the order, so one representative per first element suffices for the intermediate claims
RECURSIVE PutAll(_, _, _)
PutAll(c, S, v) == IF S = {} THEN {c} ELSE UNION {PutAll(Put(c, k, v), S \ {k}, v) : k \in S}
RECURSIVE DelAll(_, _)
DelAll(c, S) == IF S = {} THEN {c} ELSE UNION {DelAll(Del(c, k), S \ {k}) : k \in S}
RECURSIVE PopMin(_, _)
PopMin(c, n) == IF n = 0 THEN <<c, <<>>>> ELSE LET e == MinR(c)  x == PopMin(Del(c, e[1]), n - 1) IN <<x[1], <<e>> \o x[2]>>
RECURSIVE PopMax(_, _)
PopMax(c, n) == IF n = 0 THEN <<c, <<>>>> ELSE LET e == MaxR(c)  x == PopMax(Del(c, e[1]), n - 1) IN <<x[1], <<e>> \o x[2]>>

Live == DOMAIN m # {}
Finds == \A r \in Rank : \A k \in Block(r) :
    /\ Lift(FindR(C, k)) = FindR(m, r)
    /\ r \in DOMAIN m => FindR(C, k) = <<k, m[r]>>
Neighbours == \A r \in Rank :
    \* an absent block: any of its keys; a present one: its outer key
    /\ \A k \in (IF r \in DOMAIN m THEN {First(r)} ELSE Block(r)) :
         LET e == PredR(C, k) IN Lift(e) = PredR(m, r) /\ (e # None => e[1] = Last(Of(e[1])))
    /\ \A k \in (IF r \in DOMAIN m THEN {Last(r)} ELSE Block(r)) :
         LET e == SuccR(C, k) IN Lift(e) = SuccR(m, r) /\ (e # None => e[1] = First(Of(e[1])))
    \* inside a present block
    /\ r \in DOMAIN m => \A k \in Block(r) : /\ k # First(r) => PredR(C, k)[1] = k - 1
                                             /\ k # Last(r) => SuccR(C, k)[1] = k + 1
Ends == Live => /\ Lift(MinR(C)) = MinR(m) /\ MinR(C)[1] = First(MinR(m)[1])
                /\ Lift(MaxR(C)) = MaxR(m) /\ MaxR(C)[1] = Last(MaxR(m)[1])
Inserts == \A r \in Rank, v \in Val : PutAll(C, Block(r), v) = {Expand(Put(m, r, v))}
Overwrites == \A r \in DOMAIN m, v \in Val : PutAll(C, Block(r), v) = {Expand(Write(m, FindR(m, r), v))}
Removes == \A r \in Rank : DelAll(C, Block(r)) = {Expand(Del(m, r))}
Pops == Live => LET lo == MinR(m)[1]  hi == MaxR(m)[1]  a == PopMin(C, sz[lo])  b == PopMax(C, sz[hi]) IN
    /\ a = <<Expand(Del(m, lo)), [i \in 1..sz[lo] |-> <<First(lo) + i - 1, m[lo]>>]>>
    /\ b = <<Expand(Del(m, hi)), [i \in 1..sz[hi] |-> <<Last(hi) - i + 1, m[hi]>>]>>
    \* something remains after the block exactly when something remains after it in the abstract map
    /\ (DOMAIN a[1] = {}) = (DOMAIN m = {lo}) /\ (DOMAIN b[1] = {}) = (DOMAIN m = {hi})
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Join(Tail(s))
Reads == Sorted(C) = Join([i \in 1..Cardinality(DOMAIN m) |->
           LET e == Sorted(m)[i] IN [j \in 1..sz[e[1]] |-> <<First(e[1]) + j - 1, e[2]>>]])
Lemma == Finds /\ Neighbours /\ Ends /\ Inserts /\ Overwrites /\ Removes /\ Pops /\ Reads

Init == m \in AllMaps(Rank, Val) /\ sz \in [Rank -> 1..MaxSize]
Next == UNCHANGED <<m, sz>>
=============================================================================
