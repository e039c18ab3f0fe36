------------------------------ MODULE ByteLeaf ------------------------------
(***************************************************************************)
(* The leaf over a byte: a bit set kept in two words, and the map that     *)
(* pairs it with the list of its values in key order (ByteSet, ByteMap).   *)
(* Word width W stands for 128; keys are 0 .. 2W-1.                        *)
(*                                                                         *)
(* Lower, Higher, Rank, Lowest and Highest are written as the code         *)
(* computes them: with shifts that give zero once the distance reaches the *)
(* word width, population counts, and leading / trailing zero counts.      *)
(* The invariants say they are the mathematical set's answers, and the     *)
(* step property that every operation is the abstract map's.               *)
(***************************************************************************)
EXTENDS OrdMap
CONSTANTS W, Val
VARIABLES w,      \* the two words
          list,   \* the values, in ascending key order
          m       \* the abstract map
lvars == <<w, list, m>>

Byte == 0..(2 * W - 1)
Ones == 2^W - 1
Bit(x, i) == (x \div 2^i) % 2
Shr(x, n) == IF n >= W THEN 0 ELSE x \div 2^n
Shl(x, n) == IF n >= W THEN 0 ELSE (x * 2^n) % 2^W
RECURSIVE AndUp(_, _, _)
AndUp(x, y, i) == IF i = W THEN 0 ELSE 2^i * Bit(x, i) * Bit(y, i) + AndUp(x, y, i + 1)
And(x, y) == AndUp(x, y, 0)
Sat(n) == IF n < 0 THEN 0 ELSE n

RECURSIVE Ctz(_), Width(_), Pop(_)
Ctz(x) == IF x = 0 THEN W ELSE IF x % 2 = 1 THEN 0 ELSE 1 + Ctz(x \div 2)
Width(x) == IF x = 0 THEN 0 ELSE 1 + Width(x \div 2)        \* W - leading zeros
Clz(x) == W - Width(x)
Pop(x) == IF x = 0 THEN 0 ELSE (x % 2) + Pop(x \div 2)

AndW(a, b) == <<And(a[1], b[1]), And(a[2], b[2])>>
Lower(i)  == <<Shr(Ones, Sat(W - i)), Shr(Ones, Sat(2 * W - i))>>
Higher(i) == <<Shl(Ones, 1 + i), Shl(Ones, Sat(i - (W - 1)))>>
NoBits(a)   == a = <<0, 0>>
Lowest(a) == IF a[1] = 0 THEN W + Ctz(a[2]) ELSE Ctz(a[1])
Highest(a) == IF a[2] = 0 THEN (W - 1) - Clz(a[1]) ELSE (2 * W - 1) - Clz(a[2])
Len2(a)   == Pop(a[1]) + Pop(a[2])
Rank(a, i) == Len2(AndW(Lower(i), a))
Word(i)   == (i \div W) + 1
Has(a, i) == Bit(a[Word(i)], i % W) = 1
SetBit(a, i) == IF Has(a, i) THEN a ELSE [a EXCEPT ![Word(i)] = @ + 2^(i % W)]
UnsetBit(a, i) == IF Has(a, i) THEN [a EXCEPT ![Word(i)] = @ - 2^(i % W)] ELSE a

\* list positions are 1 + the number of keys below
At(i) == list[1 + Rank(w, i)]
InsertAt(s, p, v) == SubSeq(s, 1, p - 1) \o <<v>> \o SubSeq(s, p, Len(s))
RemoveAt(s, p) == SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, Len(s))

(* What the leaf answers *)
LFind(k) == IF Has(w, k) THEN <<k, At(k)>> ELSE <<>>
LPred(k) == LET a == AndW(Lower(k), w) IN IF NoBits(a) THEN <<>> ELSE <<Highest(a), At(Highest(a))>>
LSucc(k) == LET a == AndW(Higher(k), w) IN IF NoBits(a) THEN <<>> ELSE <<Lowest(a), At(Lowest(a))>>
LMin == <<Lowest(w), list[1]>>
LMax == <<Highest(w), list[Len(list)]>>

Members == {i \in Byte : Has(w, i)}
Init == w = <<0, 0>> /\ list = <<>> /\ m = EmptyMap
Insert(k, v) == /\ m' = Put(m, k, v)
                /\ IF Has(w, k) THEN w' = w /\ list' = [list EXCEPT ![1 + Rank(w, k)] = v]
                   ELSE w' = SetBit(w, k) /\ list' = InsertAt(list, 1 + Rank(w, k), v)
Take(k) == w' = UnsetBit(w, k) /\ list' = RemoveAt(list, 1 + Rank(w, k))
Remove(k)  == Has(w, k) /\ m' = Del(m, k) /\ Take(k)
RemoveMin  == ~NoBits(w) /\ m' = Del(m, MinOf(DOMAIN m)) /\ Take(Lowest(w))
RemoveMax  == ~NoBits(w) /\ m' = Del(m, MaxOf(DOMAIN m)) /\ Take(Highest(w))
Next == (\E k \in Byte, v \in Val : Insert(k, v)) \/ (\E k \in Byte : Remove(k)) \/ RemoveMin \/ RemoveMax
Spec == Init /\ [][Next]_lvars

(* The words and the list are the abstract map *)
Refines == /\ Members = DOMAIN m
           /\ Len(list) = Cardinality(DOMAIN m)
           /\ \A k \in DOMAIN m : At(k) = m[k]
\* constant level: checked once
MasksExact == \A i, j \in Byte : /\ Has(Lower(i), j) <=> j < i
                                 /\ Has(Higher(i), j) <=> j > i
ASSUME MasksExact
Counts == /\ Len2(w) = Cardinality(Members)
          /\ \A i \in Byte : Rank(w, i) = Cardinality({j \in Members : j < i})
Answers == \A k \in Byte : LFind(k) = FindR(m, k) /\ LPred(k) = PredR(m, k) /\ LSucc(k) = SuccR(m, k)
Ends == ~NoBits(w) => LMin = MinR(m) /\ LMax = MaxR(m) /\ (Len2(w) = 1 <=> Lowest(w) = Highest(w))
=============================================================================
