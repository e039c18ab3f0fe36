------------------------------ MODULE IntProof ------------------------------
(* The laws of splitting, joining and slots for integer keys of any width. *)
EXTENDS IntKeys, NaturalsInduction, TLAPS
ASSUME Sizes == H \in Nat /\ L \in Nat /\ H > 0 /\ L > 0 /\ Min \in Int

LEMMA Mono == ASSUME NEW a \in Nat, NEW b \in Nat, NEW c \in Nat, a <= b PROVE a * c <= b * c
<1>1. b * c = a * c + (b - a) * c OBVIOUS
<1>2. (b - a) * c >= 0 
  <2> DEFINE d == b - a
  <2>1. d \in Nat OBVIOUS
  <2>2. d * c \in Nat BY <2>1
  <2> QED BY <2>2
<1>3. a * c \in Int /\ b * c \in Int /\ (b - a) * c \in Int OBVIOUS
<1> QED BY <1>1, <1>2, <1>3
LEMMA Euclid == ASSUME NEW x \in Nat PROVE /\ x = L * (x \div L) + (x % L)
                                           /\ x \div L \in Nat /\ x % L \in 0..(L - 1)
  BY Sizes
LEMMA Small == ASSUME NEW h \in Nat, NEW l \in Los PROVE (h * L + l) \div L = h /\ (h * L + l) % L = l
<1> DEFINE x == h * L + l
           q == x \div L
           r == x % L
<1>0. h * L \in Nat /\ l \in Nat /\ x \in Nat BY Sizes DEF Los
<1>1. x = L * q + r /\ q \in Nat /\ r \in 0..(L - 1) BY <1>0, Euclid
<1> HIDE DEF q, r
<1>2. CASE q < h
  <2>1. (q + 1) * L <= h * L BY <1>1, <1>2, Mono, Sizes
  <2>2. (q + 1) * L = L * q + L BY <1>1, Sizes
  <2> QED BY <2>1, <2>2, <1>0, <1>1, Sizes DEF Los
<1>3. CASE q > h
  <2>1. (h + 1) * L <= q * L BY <1>1, <1>3, Mono, Sizes
  <2>2. (h + 1) * L = h * L + L /\ q * L = L * q BY <1>1, Sizes
  <2> QED BY <2>1, <2>2, <1>0, <1>1, Sizes DEF Los
<1>4. CASE q = h
  <2>1. h * L = L * q BY <1>4, <1>1, Sizes
  <2>2. r = l BY <2>1, <1>0, <1>1, Sizes
  <2> QED BY <1>4, <2>2 DEF q, r
<1> QED BY <1>1, <1>2, <1>3, <1>4

\* C11: both parts exist, joining gives the key back
THEOREM Parts == ASSUME NEW k \in Dom PROVE Hi(k) \in His /\ Lo(k) \in Los /\ Join(Hi(k), Lo(k)) = k
<1> DEFINE x == k - Min
           q == x \div L
           r == x % L
<1>0. H * L \in Nat /\ x \in Nat /\ x < H * L BY Sizes DEF Dom
<1>1. x = L * q + r /\ q \in Nat /\ r \in 0..(L - 1) BY <1>0, Euclid
<1> HIDE DEF q, r
<1>2. q < H
  <2> SUFFICES ASSUME q >= H PROVE FALSE BY <1>1, Sizes
  <2>1. H * L <= q * L BY <1>1, Mono, Sizes
  <2>2. q * L = L * q BY <1>1, Sizes
  <2>3. L * q \in Int BY <1>1, Sizes
  <2> DEFINE w == L * q
             v == H * L
  <2>4. w \in Int /\ v \in Nat /\ v <= w /\ x = w + r /\ x < v /\ r >= 0 /\ r \in Int BY <2>1, <2>2, <2>3, <1>0, <1>1
  <2> HIDE DEF w, v, x
  <2> QED BY <2>4
<1>3. q * L + r = x BY <1>1, Sizes
<1> QED BY <1>0, <1>1, <1>2, <1>3, Sizes DEF Hi, Lo, His, Los, Join, q, r, Dom
\* every pair of parts is some key's
THEOREM Whole == ASSUME NEW h \in His, NEW l \in Los PROVE Join(h, l) \in Dom /\ Hi(Join(h, l)) = h /\ Lo(Join(h, l)) = l
<1>0. h \in Nat /\ l \in Nat /\ h * L \in Nat /\ H * L \in Nat BY Sizes DEF His, Los
<1>1. (h + 1) * L <= H * L BY <1>0, Mono, Sizes DEF His
<1>2. (h + 1) * L = h * L + L BY <1>0, Sizes
<1>3. Join(h, l) \in Dom BY <1>0, <1>1, <1>2, Sizes DEF Join, Dom, Los
<1>4. Join(h, l) - Min = h * L + l BY <1>0, Sizes DEF Join
<1> QED BY <1>3, <1>4, <1>0, Small DEF Hi, Lo
\* keys compare as their pairs of parts do
Before(h, l, g, m) == h < g \/ (h = g /\ l < m)
LEMMA JoinOrder == ASSUME NEW h \in His, NEW l \in Los, NEW g \in His, NEW m \in Los, Before(h, l, g, m) PROVE Join(h, l) < Join(g, m)
<1>0. h \in Nat /\ l \in Nat /\ g \in Nat /\ m \in Nat /\ h * L \in Nat /\ g * L \in Nat BY Sizes DEF His, Los
<1>1. CASE h = g BY <1>0, <1>1, Sizes DEF Join, Before
<1>2. CASE h < g
  <2>1. (h + 1) * L <= g * L BY <1>0, <1>2, Mono, Sizes
  <2>2. (h + 1) * L = h * L + L BY <1>0, Sizes
  <2> QED BY <2>1, <2>2, <1>0, Sizes DEF Join, Los
<1> QED BY <1>1, <1>2, <1>0 DEF Before
THEOREM Order == ASSUME NEW k \in Dom, NEW m \in Dom PROVE k < m <=> Before(Hi(k), Lo(k), Hi(m), Lo(m))
<1>0. k \in Int /\ m \in Int BY Sizes DEF Dom
<1>1. Hi(k) \in His /\ Lo(k) \in Los /\ Join(Hi(k), Lo(k)) = k BY Parts
<1>2. Hi(m) \in His /\ Lo(m) \in Los /\ Join(Hi(m), Lo(m)) = m BY Parts
<1>3. Hi(k) \in Int /\ Lo(k) \in Int /\ Hi(m) \in Int /\ Lo(m) \in Int BY <1>1, <1>2 DEF His, Los
<1>4. Before(Hi(k), Lo(k), Hi(m), Lo(m)) => k < m BY <1>1, <1>2, JoinOrder
<1>5. Before(Hi(m), Lo(m), Hi(k), Lo(k)) => m < k BY <1>1, <1>2, JoinOrder
<1>6. Hi(k) = Hi(m) /\ Lo(k) = Lo(m) => k = m BY <1>1, <1>2
<1> QED BY <1>0, <1>3, <1>4, <1>5, <1>6 DEF Before
\* the signed word arithmetic of the code is Join
THEOREM Signed == ASSUME NEW h \in His, NEW l \in Los, NEW M \in Nat, M > 0, H * L = 2 * M, Min = -M PROVE SJoin(h, l, M) = Join(h, l)
<1> DEFINE u == h * L + l
<1>0. h \in Nat /\ l \in Nat /\ h * L \in Nat /\ u \in Nat BY Sizes DEF His, Los
<1>1. Join(h, l) \in Dom BY Whole
<1>2. u < 2 * M BY <1>0, <1>1, Sizes DEF Join, Dom
<1> HIDE DEF u
<1>m. ASSUME NEW x \in Nat, x < 2 * M PROVE x % (2 * M) = x BY <1>m
<1>n. ASSUME NEW x \in Nat, x < 2 * M PROVE (x + 2 * M) % (2 * M) = x BY <1>n
<1>o. ASSUME NEW x \in Int, x < 0, x >= -(2 * M) PROVE x % (2 * M) = x + 2 * M BY <1>o
<1>3. CASE u < M
  <2>0. u + M \in Nat /\ u + M < 2 * M BY <1>0, <1>3 DEF u
  <2>3. (u + M) % (2 * M) = u + M BY <2>0, <1>m
  <2>1. Wrap(u, M) = u BY <2>3, <1>0 DEF Wrap, u
  <2>4. u % (2 * M) = u /\ u - M + M = u BY <1>0, <1>2, <1>m DEF u
  <2>2. Wrap(u - M, M) = u - M BY <2>4, <1>0 DEF Wrap, u
  <2> QED BY <2>1, <2>2, <1>0 DEF SJoin, Join, u
<1>4. CASE u >= M
  <2> DEFINE y == u - M
  <2>0. y \in Nat /\ y < 2 * M /\ u + M = y + 2 * M BY <1>0, <1>2, <1>4 DEF u
  <2>1. (u + M) % (2 * M) = y BY <2>0, <1>n
  <2>2. Wrap(u, M) = u - 2 * M BY <2>1, <1>0, <1>4 DEF Wrap, u
  <2> DEFINE z == u - 2 * M - M + M
  <2>3. z \in Int /\ z < 0 /\ z >= -(2 * M) BY <1>0, <1>2, <1>4 DEF u
  <2>4. z % (2 * M) = z + 2 * M BY <2>3, <1>o
  <2>5. Wrap(u - 2 * M - M, M) = u - M BY <2>4, <1>0 DEF Wrap, u
  <2> QED BY <2>2, <2>5, <1>0 DEF SJoin, Join, u
<1> QED BY <1>0, <1>3, <1>4 DEF u
\* C12: slots lie in the declared range and increase with the key
THEOREM Slots == \A k \in Dom : /\ Slot(k) \in 0..(H * L - 1)
                                /\ \A m \in Dom : k < m <=> Slot(k) < Slot(m)
<1>1. H * L \in Nat BY Sizes
<1> QED BY <1>1, Sizes DEF Slot, Dom
\* and no other numbering does
THEOREM OnlySlot == ASSUME NEW f, \A k \in Dom : f[k] \in 0..(H * L - 1), \A k \in Dom, m \in Dom : k < m => f[k] < f[m]
                    PROVE \A k \in Dom : f[k] = Slot(k)
<1> DEFINE N == H * L
           P(i) == i < N => f[Min + i] >= i
           Q(i) == i < N => f[Min + (N - 1 - i)] <= N - 1 - i
<1>0. N \in Nat /\ N > 0
  <2>1. 1 * L <= H * L BY Mono, Sizes
  <2> QED BY <2>1, Sizes
<1>1. \A i \in Nat : P(i)
  <2>1. P(0) BY <1>0, Sizes DEF Dom
  <2>2. ASSUME NEW i \in Nat, P(i) PROVE P(i + 1)
    <3> SUFFICES ASSUME i + 1 < N PROVE f[Min + (i + 1)] >= i + 1 OBVIOUS
    <3>1. Min + i \in Dom /\ Min + (i + 1) \in Dom /\ Min + i < Min + (i + 1) BY <1>0, Sizes DEF Dom
    <3>2. f[Min + i] < f[Min + (i + 1)] BY <3>1
    <3>3. f[Min + i] \in Int /\ f[Min + (i + 1)] \in Int BY <3>1
    <3>4. f[Min + i] >= i BY <2>2, <1>0
    <3> QED BY <3>2, <3>3, <3>4
  <2> HIDE DEF P
  <2> QED BY <2>1, <2>2, NatInduction, Isa
<1>2. \A i \in Nat : Q(i)
  <2>1. Q(0) BY <1>0, Sizes DEF Dom
  <2>2. ASSUME NEW i \in Nat, Q(i) PROVE Q(i + 1)
    <3> SUFFICES ASSUME i + 1 < N PROVE f[Min + (N - 1 - (i + 1))] <= N - 1 - (i + 1) OBVIOUS
    <3> DEFINE a == Min + (N - 1 - (i + 1))
               b == Min + (N - 1 - i)
    <3>1. a \in Dom /\ b \in Dom /\ a < b BY <1>0, Sizes DEF Dom
    <3>4. f[b] <= N - 1 - i BY <2>2, <1>0
    <3> HIDE DEF a, b
    <3>2. f[a] < f[b] BY <3>1
    <3>3. f[a] \in Int /\ f[b] \in Int BY <3>1
    <3>5. f[a] <= N - 1 - (i + 1) BY <3>2, <3>3, <3>4, <1>0
    <3> QED BY <3>5 DEF a
  <2> HIDE DEF Q
  <2> QED BY <2>1, <2>2, NatInduction, Isa
<1> SUFFICES ASSUME NEW k \in Dom PROVE f[k] = Slot(k) OBVIOUS
<1> DEFINE i == k - Min
           j == N - 1 - i
<1>3. i \in Nat /\ i < N /\ Min + i = k BY <1>0, Sizes DEF Dom
<1>4. j \in Nat /\ j < N /\ Min + (N - 1 - j) = k /\ N - 1 - j = i BY <1>0, <1>3, Sizes
<1>5. f[k] >= i BY <1>1, <1>3
<1>6. f[k] <= i BY <1>2, <1>4
<1>7. f[k] \in Int BY <1>0
<1> QED BY <1>3, <1>5, <1>6, <1>7 DEF Slot
=============================================================================
