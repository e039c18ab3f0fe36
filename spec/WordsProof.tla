---------------------------- MODULE WordsProof -----------------------------
(***************************************************************************)
(* For words of any width: the masks are exact, and every answer computed  *)
(* from the two words is the answer of the set they hold.                  *)
(***************************************************************************)
EXTENDS ByteWords, FiniteSetTheorems, TLAPS
LEMMA Ints == Bits \subseteq Int /\ Byte \subseteq Int /\ W \in Int /\ W > 0
  BY Width DEF Bits, Byte
LEMMA InMembers == ASSUME NEW a \in SUBSET Bits, NEW b \in SUBSET Bits
  PROVE /\ \A j \in Bits : j \in Byte /\ j + W \in Byte /\ j < W /\ ~(j + W < W) /\ (j + W) - W = j
        /\ \A j \in Bits : (j \in Members(a, b) <=> j \in a) /\ (j + W \in Members(a, b) <=> j \in b)
        /\ \A k \in Members(a, b) : k \in Byte /\ (\/ (k < W /\ k \in Bits /\ k \in a)
                                  \/ (k >= W /\ k - W \in Bits /\ k - W \in b /\ k = (k - W) + W))
        /\ \A k \in Byte : k \in Members(a, b) <=> IF k < W THEN k \in a ELSE k - W \in b
<1>1. \A j \in Bits : j \in Int /\ j >= 0 /\ j \in Byte /\ j + W \in Byte /\ j < W /\ ~(j + W < W) /\ (j + W) - W = j
  BY Width DEF Bits, Byte
<1>2. \A k \in Byte : k < W => k \in Bits BY Width DEF Bits, Byte
<1>3. \A k \in Byte : ~(k < W) => k >= W /\ k - W \in Bits /\ k = (k - W) + W BY Width DEF Bits, Byte
<1>4. ASSUME NEW j \in Bits PROVE (j \in Members(a, b) <=> j \in a) /\ (j + W \in Members(a, b) <=> j \in b)
  <2>1. \A i \in b : i + W # j BY <1>1
  <2>2. \A i \in b : i + W = j + W => i = j BY <1>1, Ints
  <2>3. j + W \notin a BY <1>1
  <2> QED BY <2>1, <2>2, <2>3 DEF Members
<1>5. \A k \in Members(a, b) : k \in Byte BY <1>1 DEF Members
<1>6. ASSUME NEW k \in Byte PROVE k \in Members(a, b) <=> IF k < W THEN k \in a ELSE k - W \in b
  BY <1>2, <1>3, <1>4
<1>7. \A k \in Members(a, b) : (\/ (k < W /\ k \in Bits /\ k \in a)
                                  \/ (k >= W /\ k - W \in Bits /\ k - W \in b /\ k = (k - W) + W))
  <2> TAKE k \in Members(a, b)
  <2>1. k \in Byte BY <1>5
  <2>2. IF k < W THEN k \in a ELSE k - W \in b BY <2>1, <1>6
  <2>3. CASE k < W
    <3>1. k \in Bits /\ k \in a BY <1>2, <2>1, <2>2, <2>3
    <3> QED BY <2>3, <3>1
  <2>4. CASE ~(k < W)
    <3>1. k - W \in b BY <2>2, <2>4
    <3>2. k >= W /\ k - W \in Bits /\ k = (k - W) + W BY <1>3, <2>1, <2>4
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>3, <2>4
<1> QED BY <1>1, <1>4, <1>5, <1>6, <1>7
THEOREM Lookup == ASSUME NEW a \in SUBSET Bits, NEW b \in SUBSET Bits, NEW k \in Byte
  PROVE Has(a, b, k) <=> k \in Members(a, b)
  BY InMembers DEF Has, First, Place
THEOREM MasksExact == ASSUME NEW i \in Byte, NEW j \in Bits
  PROVE /\ j \in Lower1(i) <=> j < i
        /\ j \in Lower2(i) <=> j + W < i
        /\ j \in Higher1(i) <=> j > i
        /\ j \in Higher2(i) <=> j + W > i
  BY Width DEF Lower1, Lower2, Higher1, Higher2, OnesShr, OnesShl, Sat, Bits, Byte
LEMMA Masked == ASSUME NEW a \in SUBSET Bits, NEW b \in SUBSET Bits, NEW i \in Byte
  PROVE /\ Members(a \cap Lower1(i), b \cap Lower2(i)) = {k \in Members(a, b) : k < i}
        /\ Members(a \cap Higher1(i), b \cap Higher2(i)) = {k \in Members(a, b) : k > i}
<1> DEFINE a1 == a \cap Lower1(i)
<1> DEFINE b1 == b \cap Lower2(i)
<1> DEFINE a2 == a \cap Higher1(i)
<1> DEFINE b2 == b \cap Higher2(i)
<1>1. a1 \in SUBSET Bits /\ b1 \in SUBSET Bits /\ a2 \in SUBSET Bits /\ b2 \in SUBSET Bits OBVIOUS
<1>2. ASSUME NEW k \in Byte
      PROVE (k \in Members(a1, b1) <=> k \in Members(a, b) /\ k < i) /\ (k \in Members(a2, b2) <=> k \in Members(a, b) /\ k > i)
  <2>1. CASE k < W
    <3>1. k \in Bits BY <2>1, Width DEF Bits, Byte
    <3>2. (k \in Lower1(i) <=> k < i) /\ (k \in Higher1(i) <=> k > i) BY <3>1, MasksExact
    <3> QED BY <1>1, <2>1, <3>1, <3>2, InMembers
  <2>2. CASE ~(k < W)
    <3>1. k - W \in Bits /\ (k - W) + W = k BY <2>2, Width DEF Bits, Byte
    <3>2. (k - W \in Lower2(i) <=> k < i) /\ (k - W \in Higher2(i) <=> k > i) BY <3>1, MasksExact
    <3> QED BY <1>1, <2>2, <3>1, <3>2, InMembers
  <2> QED BY <2>1, <2>2
<1> HIDE DEF a1, b1, a2, b2
<1>3. Members(a1, b1) \in SUBSET Byte /\ Members(a2, b2) \in SUBSET Byte /\ Members(a, b) \in SUBSET Byte BY <1>1, InMembers
<1>4. Members(a1, b1) = {k \in Members(a, b) : k < i} /\ Members(a2, b2) = {k \in Members(a, b) : k > i} BY <1>2, <1>3
<1> QED BY <1>4 DEF a1, b1, a2, b2
THEOREM EndsRight == ASSUME NEW a \in SUBSET Bits, NEW b \in SUBSET Bits, NEW k \in Byte
  PROVE /\ LowestIs(a, b, k) <=> Least(Members(a, b), k)
        /\ HighestIs(a, b, k) <=> Greatest(Members(a, b), k)
<1>0. k \in Int /\ W \in Int BY Ints
<1>1. ASSUME LowestIs(a, b, k) PROVE Least(Members(a, b), k)
  <2>1. CASE a = {}
    <3>1. k >= W /\ k - W \in b /\ \A y \in b : k - W <= y BY <1>1, <2>1 DEF LowestIs, Least
    <3>2. k - W \in Bits /\ k = (k - W) + W BY <3>1, <1>0
    <3>3. k \in Members(a, b) BY <3>1, <3>2, InMembers
    <3>4. ASSUME NEW y \in Members(a, b) PROVE k <= y
      <4>1. y >= W /\ y - W \in b /\ y \in Int BY <2>1, InMembers, Ints
      <4> QED BY <3>1, <4>1, <1>0
    <3> QED BY <3>3, <3>4 DEF Least
  <2>2. CASE a # {}
    <3>1. k \in a /\ \A y \in a : k <= y BY <1>1, <2>2 DEF LowestIs, Least
    <3>2. k \in Members(a, b) /\ k < W BY <3>1, InMembers
    <3>3. ASSUME NEW y \in Members(a, b) PROVE k <= y
      <4>1. y \in Int /\ (y \in a \/ y >= W) BY InMembers, Ints
      <4> QED BY <3>1, <3>2, <4>1, <1>0
    <3> QED BY <3>2, <3>3 DEF Least
  <2> QED BY <2>1, <2>2
<1>2. ASSUME Least(Members(a, b), k) PROVE LowestIs(a, b, k)
  <2>1. k \in Members(a, b) /\ \A y \in Members(a, b) : k <= y BY <1>2 DEF Least
  <2>2. CASE a = {}
    <3>1. k >= W /\ k - W \in b BY <2>1, <2>2, InMembers
    <3>2. ASSUME NEW y \in b PROVE k - W <= y
      <4>1. y + W \in Members(a, b) /\ y \in Int BY InMembers, Ints
      <4> QED BY <2>1, <4>1, <1>0
    <3> QED BY <2>2, <3>1, <3>2 DEF LowestIs, Least
  <2>3. CASE a # {}
    <3>1. PICK z \in a : TRUE BY <2>3
    <3>2. z \in Members(a, b) /\ z < W /\ z \in Int BY InMembers, Ints
    <3>3. k < W BY <2>1, <3>2, <1>0
    <3>4. k \in a BY <2>1, <3>3, <1>0, InMembers
    <3>5. ASSUME NEW y \in a PROVE k <= y
      <4>1. y \in Members(a, b) BY InMembers
      <4> QED BY <2>1, <4>1
    <3> QED BY <2>3, <3>4, <3>5 DEF LowestIs, Least
  <2> QED BY <2>2, <2>3
<1>3. ASSUME HighestIs(a, b, k) PROVE Greatest(Members(a, b), k)
  <2>1. CASE b = {}
    <3>1. k \in a /\ \A y \in a : y <= k BY <1>3, <2>1 DEF HighestIs, Greatest
    <3>2. k \in Members(a, b) BY <3>1, InMembers
    <3>3. ASSUME NEW y \in Members(a, b) PROVE y <= k
      <4>1. y \in a BY <2>1, InMembers
      <4> QED BY <3>1, <4>1
    <3> QED BY <3>2, <3>3 DEF Greatest
  <2>2. CASE b # {}
    <3>1. k >= W /\ k - W \in b /\ \A y \in b : y <= k - W BY <1>3, <2>2 DEF HighestIs, Greatest
    <3>2. k - W \in Bits /\ k = (k - W) + W BY <3>1, <1>0
    <3>3. k \in Members(a, b) BY <3>1, <3>2, InMembers
    <3>4. ASSUME NEW y \in Members(a, b) PROVE y <= k
      <4>1. y \in Int /\ (y < W \/ y - W \in b) BY InMembers, Ints
      <4> QED BY <3>1, <4>1, <1>0
    <3> QED BY <3>3, <3>4 DEF Greatest
  <2> QED BY <2>1, <2>2
<1>4. ASSUME Greatest(Members(a, b), k) PROVE HighestIs(a, b, k)
  <2>1. k \in Members(a, b) /\ \A y \in Members(a, b) : y <= k BY <1>4 DEF Greatest
  <2>2. CASE b = {}
    <3>1. k \in a BY <2>1, <2>2, InMembers
    <3>2. ASSUME NEW y \in a PROVE y <= k
      <4>1. y \in Members(a, b) BY InMembers
      <4> QED BY <2>1, <4>1
    <3> QED BY <2>2, <3>1, <3>2 DEF HighestIs, Greatest
  <2>3. CASE b # {}
    <3>1. PICK z \in b : TRUE BY <2>3
    <3>2. z + W \in Members(a, b) /\ z \in Int /\ z >= 0
      <4>1. z \in Bits OBVIOUS
      <4> QED BY <4>1, InMembers, Width DEF Bits
    <3>3. k >= W BY <2>1, <3>2, <1>0
    <3>4. k - W \in b BY <2>1, <3>3, <1>0, InMembers
    <3>5. ASSUME NEW y \in b PROVE y <= k - W
      <4>1. y + W \in Members(a, b) /\ y \in Int BY InMembers, Ints
      <4> QED BY <2>1, <4>1, <1>0
    <3> QED BY <2>3, <3>3, <3>4, <3>5 DEF HighestIs, Greatest
  <2> QED BY <2>2, <2>3
<1> QED BY <1>1, <1>2, <1>3, <1>4
\* neighbours: the greatest member below and the least member above, whichever words they lie in
THEOREM Neighbours == ASSUME NEW a \in SUBSET Bits, NEW b \in SUBSET Bits, NEW i \in Byte, NEW k \in Byte
  PROVE /\ PredIs(a, b, i, k) <=> Greatest({x \in Members(a, b) : x < i}, k)
        /\ SuccIs(a, b, i, k) <=> Least({x \in Members(a, b) : x > i}, k)
<1>1. a \cap Lower1(i) \in SUBSET Bits /\ b \cap Lower2(i) \in SUBSET Bits
      /\ a \cap Higher1(i) \in SUBSET Bits /\ b \cap Higher2(i) \in SUBSET Bits OBVIOUS
<1>2. PredIs(a, b, i, k) <=> Greatest(Members(a \cap Lower1(i), b \cap Lower2(i)), k) BY <1>1, EndsRight DEF PredIs
<1>3. SuccIs(a, b, i, k) <=> Least(Members(a \cap Higher1(i), b \cap Higher2(i)), k) BY <1>1, EndsRight DEF SuccIs
<1> QED BY <1>2, <1>3, Masked
\* counts: a member counted in one word or in the other
LEMMA CountRight == ASSUME NEW a \in SUBSET Bits, NEW b \in SUBSET Bits
  PROVE Count(a, b) = Cardinality(Members(a, b))
<1> DEFINE hi == {j + W : j \in b}
<1>1. IsFiniteSet(Bits) BY Width, FS_Interval DEF Bits
<1>2. IsFiniteSet(a) /\ IsFiniteSet(b) BY <1>1, FS_Subset
<1>3. hi \in SUBSET Byte /\ IsFiniteSet(Byte) BY InMembers, Width, FS_Interval DEF Byte
<1>4. IsFiniteSet(hi) BY <1>3, FS_Subset
<1>5. Cardinality(hi) = Cardinality(b)
  <2> DEFINE f == [j \in b |-> j + W]
  <2>1. f \in Bijection(b, hi)
    <3>1. f \in [b -> hi] OBVIOUS
    <3>2. \A x, y \in b : f[x] = f[y] => x = y
      <4>1. \A x \in b : x \in Int /\ f[x] = x + W BY Ints
      <4> HIDE DEF f
      <4> QED BY <4>1, Ints
    <3>3. \A y \in hi : \E x \in b : f[x] = y OBVIOUS
    <3> QED BY <3>1, <3>2, <3>3 DEF Bijection, Injection, Surjection, IsInjective
  <2> QED BY <2>1, <1>2, FS_Bijection DEF ExistsBijection
<1>6. Members(a, b) = a \cup hi BY DEF Members
<1>7. a \cap hi = {} BY InMembers, Ints
<1>8. Cardinality(a \cup hi) = Cardinality(a) + Cardinality(hi) - Cardinality(a \cap hi) BY <1>2, <1>4, FS_Union
<1>9. Cardinality(a) \in Nat /\ Cardinality(hi) \in Nat BY <1>2, <1>4, FS_CardinalityType
<1> QED BY <1>5, <1>6, <1>7, <1>8, <1>9, FS_EmptySet DEF Count
THEOREM Ranks == ASSUME NEW a \in SUBSET Bits, NEW b \in SUBSET Bits, NEW i \in Byte
  PROVE RankOf(a, b, i) = Cardinality({x \in Members(a, b) : x < i})
<1>1. a \cap Lower1(i) \in SUBSET Bits /\ b \cap Lower2(i) \in SUBSET Bits OBVIOUS
<1> QED BY <1>1, CountRight, Masked DEF RankOf
THEOREM Updates == ASSUME NEW a \in SUBSET Bits, NEW b \in SUBSET Bits, NEW k \in Byte
  PROVE /\ Set1(a, k) \in SUBSET Bits /\ Set2(b, k) \in SUBSET Bits
        /\ Members(Set1(a, k), Set2(b, k)) = Members(a, b) \cup {k}
        /\ Clear1(a, k) \in SUBSET Bits /\ Clear2(b, k) \in SUBSET Bits
        /\ Members(Clear1(a, k), Clear2(b, k)) = Members(a, b) \ {k}
<1>1. (First(k) => Place(k) = k /\ k \in Bits) /\ (~First(k) => Place(k) = k - W /\ k - W \in Bits)
  BY Width DEF First, Place, Bits, Byte
<1>2. Set1(a, k) \in SUBSET Bits /\ Set2(b, k) \in SUBSET Bits /\ Clear1(a, k) \in SUBSET Bits /\ Clear2(b, k) \in SUBSET Bits
  BY <1>1 DEF Set1, Set2, Clear1, Clear2
<1>3. ASSUME NEW x \in Byte
      PROVE /\ x \in Members(Set1(a, k), Set2(b, k)) <=> x \in Members(a, b) \/ x = k
            /\ x \in Members(Clear1(a, k), Clear2(b, k)) <=> x \in Members(a, b) /\ x # k
  <2>0. x \in Int /\ k \in Int /\ W \in Int BY Ints
  <2>1. CASE x < W
    <3>1. CASE First(k)
      <4>1. Set1(a, k) = a \cup {k} /\ Clear1(a, k) = a \ {k} BY <1>1, <3>1 DEF Set1, Clear1
      <4> QED BY <1>2, <2>1, <4>1, InMembers
    <3>2. CASE ~First(k)
      <4>1. Set1(a, k) = a /\ Clear1(a, k) = a /\ x # k BY <3>2, <2>1 DEF Set1, Clear1, First
      <4> QED BY <1>2, <2>1, <4>1, InMembers
    <3> QED BY <3>1, <3>2
  <2>2. CASE ~(x < W)
    <3>1. CASE First(k)
      <4>1. Set2(b, k) = b /\ Clear2(b, k) = b /\ x # k BY <3>1, <2>2 DEF Set2, Clear2, First
      <4> QED BY <1>2, <2>2, <4>1, InMembers
    <3>2. CASE ~First(k)
      <4>1. Set2(b, k) = b \cup {k - W} /\ Clear2(b, k) = b \ {k - W} BY <1>1, <3>2 DEF Set2, Clear2
      <4>2. x - W = k - W <=> x = k BY <2>0
      <4> QED BY <1>2, <2>2, <4>1, <4>2, InMembers
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>1, <2>2
<1>4. \A x \in Members(Set1(a, k), Set2(b, k)) : x \in Byte BY <1>2, InMembers
<1>5. \A x \in Members(Clear1(a, k), Clear2(b, k)) : x \in Byte BY <1>2, InMembers
<1>6. \A x \in Members(a, b) : x \in Byte BY InMembers
<1> QED BY <1>2, <1>3, <1>4, <1>5, <1>6
=============================================================================
