----------------------------- MODULE ByteWords -----------------------------
(***************************************************************************)
(* The two words of a byte set with a word as the set of its one bits, for *)
(* any word width W.  A shift of all ones to the right by n leaves the     *)
(* bits below W - n, a shift to the left those from n on; counts are sizes *)
(* of sets; leading and trailing zero counts name the ends.  MCWords shows *)
(* with TLC that these are ByteLeaf's integer words; WordsProof proves     *)
(* that the answers are the ordered set's for every W.                     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANT W
ASSUME Width == W \in Nat /\ W > 0
Bits == 0..(W - 1)
Byte == 0..(2 * W - 1)
Sat(n) == IF n < 0 THEN 0 ELSE n
OnesShr(n) == {j \in Bits : j < W - n}
OnesShl(n) == {j \in Bits : j >= n}
\* masks of the keys below and above i
Lower1(i) == OnesShr(Sat(W - i))
Lower2(i) == OnesShr(Sat(2 * W - i))
Higher1(i) == OnesShl(1 + i)
Higher2(i) == OnesShl(Sat(i - (W - 1)))
\* the set kept in the words a and b
Members(a, b) == a \cup {j + W : j \in b}
Least(S, x) == x \in S /\ \A y \in S : x <= y
Greatest(S, x) == x \in S /\ \A y \in S : y <= x
\* lowest: trailing zeros of the first word, or W plus those of the second
LowestIs(a, b, k) == IF a = {} THEN k >= W /\ Least(b, k - W) ELSE Least(a, k)
HighestIs(a, b, k) == IF b = {} THEN Greatest(a, k) ELSE k >= W /\ Greatest(b, k - W)
\* the word of k and its place in it (k / W and k % W, as 0 <= k < 2W)
First(k) == k < W
Place(k) == IF k < W THEN k ELSE k - W
Has(a, b, k) == IF First(k) THEN Place(k) \in a ELSE Place(k) \in b
Count(a, b) == Cardinality(a) + Cardinality(b)
\* what the queries answer
PredIs(a, b, i, k) == HighestIs(a \cap Lower1(i), b \cap Lower2(i), k)
SuccIs(a, b, i, k) == LowestIs(a \cap Higher1(i), b \cap Higher2(i), k)
RankOf(a, b, i) == Count(a \cap Lower1(i), b \cap Lower2(i))
Set1(a, k) == IF First(k) THEN a \cup {Place(k)} ELSE a
Set2(b, k) == IF First(k) THEN b ELSE b \cup {Place(k)}
Clear1(a, k) == IF First(k) THEN a \ {Place(k)} ELSE a
Clear2(b, k) == IF First(k) THEN b ELSE b \ {Place(k)}
=============================================================================
