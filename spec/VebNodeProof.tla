--------------------------- MODULE VebNodeProof ---------------------------
(***************************************************************************)
(* The proof of VebNode's theorem Safe, checked by tlapm: for halves of    *)
(* any size, every call on one node over correct parts keeps the structure *)
(* and changes and answers as OrdMap says.  MCNode.tla shows with TLC that *)
(* the nodes of VebTree.tla take VebNode's steps.                          *)
(***************************************************************************)
EXTENDS VebNode, NaturalsInduction, TLAPS
LEMMA Ints == Hi \subseteq Int /\ Lo \subseteq Int
  BY DEF Hi, Lo
LEMMA EndsOf == ASSUME NEW n \in Nat, NEW S \in SUBSET (0..n), S # {}
  PROVE (\E a \in S : Least(S, a)) /\ (\E a \in S : Greatest(S, a))
<1>1. PICK s \in S : TRUE OBVIOUS
<1>2. \E a \in S : Least(S, a)
  <2> DEFINE P(m) == m \in S
  <2>1. s \in Nat /\ P(s) BY <1>1
  <2> HIDE DEF P
  <2>2. \E m \in Nat : P(m) /\ \A k \in 0..m-1 : ~P(k) BY <2>1, SmallestNatural, Isa
  <2> USE DEF P
  <2>3. PICK m \in Nat : m \in S /\ \A k \in 0..m-1 : k \notin S BY <2>2
  <2>4. ASSUME NEW b \in S PROVE m <= b
    <3>1. b \in Nat BY <2>4
    <3>2. b \notin 0..m-1 BY <2>3, <2>4
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>3, <2>4 DEF Least
<1>3. \E a \in S : Greatest(S, a)
  <2> DEFINE P(m) == n - m \in S
  <2>1. n - s \in Nat /\ n - (n - s) = s BY <1>1
  <2>2. P(n - s) BY <1>1, <2>1
  <2> HIDE DEF P
  <2>3. \E m \in Nat : P(m) /\ \A k \in 0..m-1 : ~P(k) BY <2>1, <2>2, SmallestNatural, Isa
  <2> USE DEF P
  <2>4. PICK m \in Nat : n - m \in S /\ \A k \in 0..m-1 : n - k \notin S BY <2>3
  <2>5. ASSUME NEW b \in S PROVE b <= n - m
    <3>1. b \in Nat /\ b <= n /\ n - b \in Nat /\ n - (n - b) = b BY <2>5
    <3>2. n - b \notin 0..m-1 BY <2>4, <2>5, <3>1
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>4, <2>5 DEF Greatest
<1> QED BY <1>2, <1>3
LEMMA Ends == /\ \A S \in SUBSET Hi : S # {} => (\E a \in S : Least(S, a)) /\ (\E a \in S : Greatest(S, a))
              /\ \A S \in SUBSET Lo : S # {} => (\E a \in S : Least(S, a)) /\ (\E a \in S : Greatest(S, a))
  BY EndsOf, Halves DEF Hi, Lo
LEMMA Order == ASSUME NEW a \in Keys, NEW b \in Keys, NEW c \in Keys
  PROVE /\ ~Less(a, a)
        /\ Less(a, b) /\ Less(b, c) => Less(a, c)
        /\ Less(a, b) \/ a = b \/ Less(b, a)
        /\ Less(a, b) => ~Less(b, a) /\ a # b
  BY Ints DEF Keys, Less
LEMMA Pairs == /\ \A h \in Hi, l \in Lo : <<h, l>> \in Keys
               /\ \A k \in Keys : k[1] \in Hi /\ k[2] \in Lo /\ k = <<k[1], k[2]>>
  BY DEF Keys
LEMMA InitInv == Init => Inv
  BY NoVal, Pairs DEF Init, Inv, TypeOK, Structure
LEMMA MonadStep == ASSUME NEW k \in Keys, NEW v \in Val, Inv, FromMonad(k, v) PROVE Inv' /\ Sets(k, v)
  BY NoVal, Order DEF FromMonad, AnyMax, Inv, TypeOK, Structure, Sets, At
LEMMA InsertStep == ASSUME NEW k \in Keys, NEW v \in Val, Inv, Insert(k, v) PROVE Inv' /\ Sets(k, v)
<1>0. live /\ live' BY DEF Insert, Inv, TypeOK
<1>1. CASE k = min /\ minv' = v /\ UNCHANGED <<two, min, max, maxv, kid, sum>>
  BY <1>0, <1>1, NoVal, Order DEF Inv, TypeOK, Structure, Sets, At
<1>2. CASE /\ ~two /\ Less(k, min)
        /\ two' = TRUE /\ min' = k /\ minv' = v /\ max' = min /\ maxv' = minv /\ UNCHANGED <<kid, sum>>
  BY <1>0, <1>2, NoVal, Order DEF Inv, TypeOK, Structure, Sets, At
<1>3. CASE /\ ~two /\ Less(min, k)
        /\ two' = TRUE /\ max' = k /\ maxv' = v /\ UNCHANGED <<min, minv, kid, sum>>
  BY <1>0, <1>3, NoVal, Order DEF Inv, TypeOK, Structure, Sets, At
<1>p. ASSUME NEW p \in Keys, NEW w \in Val, Push(p, w)
      PROVE /\ kid' \in [Keys -> Val \cup {None}] /\ sum' \in SUBSET Hi
            /\ \A j \in Keys : kid'[j] = IF j = p THEN w ELSE kid[j]
            /\ \A h \in Hi : h \in sum' <=> \E l \in Lo : kid'[<<h, l>>] # None
  <2>1. kid' = [kid EXCEPT ![p] = w] /\ sum' = sum \cup {p[1]} /\ kid \in [Keys -> Val \cup {None}] /\ sum \in SUBSET Hi
    BY <1>p DEF Push, Inv, TypeOK
  <2>2. \A j \in Keys : kid'[j] = IF j = p THEN w ELSE kid[j] BY <2>1
  <2>3. \A h \in Hi : h \in sum <=> \E l \in Lo : kid[<<h, l>>] # None BY DEF Inv, Structure
  <2>4. ASSUME NEW h \in Hi PROVE h \in sum' <=> \E l \in Lo : kid'[<<h, l>>] # None
    <3>1. CASE h = p[1]
      <4>1. kid'[<<h, p[2]>>] # None BY <2>2, <3>1, Pairs, NoVal
      <4> QED BY <2>1, <3>1, <4>1, Pairs
    <3>2. CASE h # p[1]
      <4>1. \A l \in Lo : kid'[<<h, l>>] = kid[<<h, l>>] BY <2>2, <3>2, Pairs
      <4> QED BY <2>1, <2>3, <3>2, <4>1
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>1, <2>2, <2>4, Pairs
<1>4. CASE /\ two /\ Less(k, min)
        /\ min' = k /\ minv' = v /\ Push(min, minv) /\ UNCHANGED <<two, max, maxv>>
  BY <1>0, <1>4, <1>p, NoVal, Order DEF Inv, TypeOK, Structure, Sets, At
<1>5. CASE two /\ k = max /\ maxv' = v /\ UNCHANGED <<two, min, minv, max, kid, sum>>
  BY <1>0, <1>5, NoVal, Order DEF Inv, TypeOK, Structure, Sets, At
<1>6. CASE /\ two /\ Less(max, k)
        /\ max' = k /\ maxv' = v /\ Push(max, maxv) /\ UNCHANGED <<two, min, minv>>
  BY <1>0, <1>6, <1>p, NoVal, Order DEF Inv, TypeOK, Structure, Sets, At
<1>7. CASE /\ two /\ Less(min, k) /\ Less(k, max)
        /\ Push(k, v) /\ UNCHANGED <<two, min, minv, max, maxv>>
  BY <1>0, <1>7, <1>p, NoVal, Order DEF Inv, TypeOK, Structure, Sets, At
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7 DEF Insert
LEMMA TakeStep == ASSUME NEW p \in Keys, Inv, Take(p)
      PROVE /\ kid' \in [Keys -> Val \cup {None}] /\ sum' \in SUBSET Hi
            /\ \A j \in Keys : kid'[j] = IF j = p THEN None ELSE kid[j]
            /\ \A h \in Hi : h \in sum' <=> \E l \in Lo : kid'[<<h, l>>] # None
<1>1. kid' = [kid EXCEPT ![p] = None] /\ kid \in [Keys -> Val \cup {None}] /\ sum \in SUBSET Hi
    BY DEF Take, Inv, TypeOK
<1>2. \A j \in Keys : kid'[j] = IF j = p THEN None ELSE kid[j] BY <1>1
<1>3. \A h \in Hi : h \in sum <=> \E l \in Lo : kid[<<h, l>>] # None BY DEF Inv, Structure
<1>4. sum' = IF \E l \in Lo : l # p[2] /\ kid[<<p[1], l>>] # None THEN sum ELSE sum \ {p[1]} BY DEF Take
<1>5. ASSUME NEW h \in Hi PROVE h \in sum' <=> \E l \in Lo : kid'[<<h, l>>] # None
    <3>1. CASE h = p[1]
      <4>1. \A l \in Lo : kid'[<<h, l>>] # None <=> l # p[2] /\ kid[<<h, l>>] # None BY <1>2, <3>1, Pairs
      <4> QED BY <1>3, <1>4, <3>1, <4>1
    <3>2. CASE h # p[1]
      <4>1. \A l \in Lo : kid'[<<h, l>>] = kid[<<h, l>>] BY <1>2, <3>2, Pairs
      <4> QED BY <1>3, <1>4, <3>2, <4>1
    <3> QED BY <3>1, <3>2
<1>6. sum' \in SUBSET Hi BY <1>1, <1>4
<1> QED BY <1>1, <1>2, <1>5, <1>6
LEMMA LowestIs == ASSUME NEW k \in Keys, Inv, Lowest(k)
      PROVE kid[k] # None /\ \A j \in Keys : kid[j] # None => j = k \/ Less(k, j)
<1>1. kid[k] # None BY Pairs DEF Lowest, Least, Row
<1>2. ASSUME NEW j \in Keys, kid[j] # None PROVE j = k \/ Less(k, j)
  <2>1. j[1] \in sum BY <1>2, Pairs DEF Inv, Structure
  <2>2. k[1] <= j[1] BY <2>1 DEF Lowest, Least
  <2>3. CASE j[1] = k[1]
    <3>1. j[2] \in Row(k[1]) BY <1>2, <2>3, Pairs DEF Row
    <3>2. k[2] <= j[2] BY <3>1 DEF Lowest, Least
    <3> QED BY <2>3, <3>2, Pairs, Ints DEF Less
  <2> QED BY <2>2, <2>3, Pairs, Ints DEF Less
<1> QED BY <1>1, <1>2
LEMMA HighestIs == ASSUME NEW k \in Keys, Inv, Highest(k)
      PROVE kid[k] # None /\ \A j \in Keys : kid[j] # None => j = k \/ Less(j, k)
<1>1. kid[k] # None BY Pairs DEF Highest, Greatest, Row
<1>2. ASSUME NEW j \in Keys, kid[j] # None PROVE j = k \/ Less(j, k)
  <2>1. j[1] \in sum BY <1>2, Pairs DEF Inv, Structure
  <2>2. j[1] <= k[1] BY <2>1 DEF Highest, Greatest
  <2>3. CASE j[1] = k[1]
    <3>1. j[2] \in Row(k[1]) BY <1>2, <2>3, Pairs DEF Row
    <3>2. j[2] <= k[2] BY <3>1 DEF Highest, Greatest
    <3> QED BY <2>3, <3>2, Pairs, Ints DEF Less
  <2> QED BY <2>2, <2>3, Pairs, Ints DEF Less
<1> QED BY <1>1, <1>2
LEMMA PopMinStep == ASSUME NEW m \in Keys, m = min, Inv, PopMin PROVE Inv' /\ First(m) /\ Sets(m, None)
<1>0. First(m) BY NoVal, Order DEF AnyMin, AnyMax, PopMin, Inv, TypeOK, Structure, First, At
<1>1. CASE ~two /\ live' = FALSE /\ AnyMin /\ AnyMax /\ UNCHANGED <<two, kid, sum>>
  <2>1. Inv' BY <1>1, NoVal DEF AnyMin, AnyMax, Inv, TypeOK, Structure
  <2>2. Sets(m, None) BY <1>1, NoVal DEF AnyMin, AnyMax, PopMin, Inv, TypeOK, Structure, Sets, At
  <2> QED BY <1>0, <2>1, <2>2
<1>2. CASE /\ two /\ sum = {} /\ live' = live
        /\ two' = FALSE /\ min' = max /\ minv' = maxv /\ AnyMax /\ UNCHANGED <<kid, sum>>
  <2>1. \A k \in Keys : kid[k] = None BY <1>2, Pairs DEF Inv, Structure
  <2>2. Inv' BY <1>2, <2>1, NoVal DEF AnyMin, AnyMax, PopMin, Inv, TypeOK, Structure
  <2>3. Sets(m, None) BY <1>2, <2>1, NoVal, Order DEF AnyMin, AnyMax, PopMin, Inv, TypeOK, Structure, Sets, At
  <2> QED BY <1>0, <2>2, <2>3
<1>3. CASE /\ two /\ sum # {} /\ live' = live
        /\ \E k \in Keys : Lowest(k) /\ min' = k /\ minv' = kid[k] /\ Take(k)
        /\ UNCHANGED <<two, max, maxv>>
  <2>1. PICK k \in Keys : Lowest(k) /\ min' = k /\ minv' = kid[k] /\ Take(k) BY <1>3
  <2>2. kid[k] # None /\ \A j \in Keys : kid[j] # None => j = k \/ Less(k, j) BY <2>1, LowestIs
  <2>3. /\ kid' \in [Keys -> Val \cup {None}] /\ sum' \in SUBSET Hi
        /\ \A j \in Keys : kid'[j] = IF j = k THEN None ELSE kid[j]
        /\ \A h \in Hi : h \in sum' <=> \E l \in Lo : kid'[<<h, l>>] # None
    BY <2>1, TakeStep
  <2>4. Inv' BY <1>3, <2>1, <2>2, <2>3, NoVal, Order DEF AnyMin, AnyMax, PopMin, Inv, TypeOK, Structure
  <2>5. Sets(m, None) BY <1>3, <2>1, <2>2, <2>3, NoVal, Order DEF AnyMin, AnyMax, PopMin, Inv, TypeOK, Structure, Sets, At
  <2> QED BY <1>0, <2>4, <2>5
<1> QED BY <1>1, <1>2, <1>3 DEF PopMin
LEMMA PopMaxStep == ASSUME NEW m \in Keys, m = (IF two THEN max ELSE min), Inv, PopMax PROVE Inv' /\ Last(m) /\ Sets(m, None)
<1>0. Last(m) BY NoVal, Order DEF AnyMin, AnyMax, PopMax, Inv, TypeOK, Structure, Last, At
<1>1. CASE ~two /\ live' = FALSE /\ AnyMin /\ AnyMax /\ UNCHANGED <<two, kid, sum>>
  <2>1. Inv' BY <1>1, NoVal DEF AnyMin, AnyMax, Inv, TypeOK, Structure
  <2>2. Sets(m, None) BY <1>1, NoVal DEF AnyMin, AnyMax, PopMax, Inv, TypeOK, Structure, Sets, At
  <2> QED BY <1>0, <2>1, <2>2
<1>2. CASE /\ two /\ sum = {} /\ live' = live
        /\ two' = FALSE /\ AnyMax /\ UNCHANGED <<min, minv, kid, sum>>
  <2>1. \A k \in Keys : kid[k] = None BY <1>2, Pairs DEF Inv, Structure
  <2>2. Inv' BY <1>2, <2>1, NoVal DEF AnyMin, AnyMax, PopMax, Inv, TypeOK, Structure
  <2>3. Sets(m, None) BY <1>2, <2>1, NoVal, Order DEF AnyMin, AnyMax, PopMax, Inv, TypeOK, Structure, Sets, At
  <2> QED BY <1>0, <2>2, <2>3
<1>3. CASE /\ two /\ sum # {} /\ live' = live
        /\ \E k \in Keys : Highest(k) /\ max' = k /\ maxv' = kid[k] /\ Take(k)
        /\ UNCHANGED <<two, min, minv>>
  <2>1. PICK k \in Keys : Highest(k) /\ max' = k /\ maxv' = kid[k] /\ Take(k) BY <1>3
  <2>2. kid[k] # None /\ \A j \in Keys : kid[j] # None => j = k \/ Less(j, k) BY <2>1, HighestIs
  <2>3. /\ kid' \in [Keys -> Val \cup {None}] /\ sum' \in SUBSET Hi
        /\ \A j \in Keys : kid'[j] = IF j = k THEN None ELSE kid[j]
        /\ \A h \in Hi : h \in sum' <=> \E l \in Lo : kid'[<<h, l>>] # None
    BY <2>1, TakeStep
  <2>4. Inv' BY <1>3, <2>1, <2>2, <2>3, NoVal, Order DEF AnyMin, AnyMax, PopMax, Inv, TypeOK, Structure
  <2>5. Sets(m, None) BY <1>3, <2>1, <2>2, <2>3, NoVal, Order DEF AnyMin, AnyMax, PopMax, Inv, TypeOK, Structure, Sets, At
  <2> QED BY <1>0, <2>4, <2>5
<1> QED BY <1>1, <1>2, <1>3 DEF PopMax
LEMMA RemoveStep == ASSUME NEW k \in Keys, Inv, Remove(k) PROVE Inv' /\ Sets(k, None)
<1>1. CASE k = min /\ PopMin BY <1>1, PopMinStep
<1>2. CASE two /\ k # min /\ k = max /\ PopMax BY <1>2, PopMaxStep
<1>3. CASE /\ two /\ k # min /\ k # max /\ kid[k] # None
        /\ Take(k) /\ UNCHANGED <<live, two, min, minv, max, maxv>>
  <2>3. /\ kid' \in [Keys -> Val \cup {None}] /\ sum' \in SUBSET Hi
        /\ \A j \in Keys : kid'[j] = IF j = k THEN None ELSE kid[j]
        /\ \A h \in Hi : h \in sum' <=> \E l \in Lo : kid'[<<h, l>>] # None
    BY <1>3, TakeStep
  <2>4. Inv' BY <1>3, <2>3, NoVal, Order DEF Inv, TypeOK, Structure
  <2>5. Sets(k, None) BY <1>3, <2>3, NoVal, Order DEF Inv, TypeOK, Structure, Sets, At
  <2> QED BY <2>4, <2>5
<1>4. CASE k # min /\ (two => k # max /\ kid[k] = None) /\ UNCHANGED vars
  BY <1>4, NoVal, Order DEF vars, Inv, TypeOK, Structure, Sets, At
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Remove
LEMMA Reach == ASSUME Inv, sum # {} PROVE (\E k \in Keys : Lowest(k)) /\ (\E k \in Keys : Highest(k))
<1>0. /\ sum \in SUBSET Hi /\ \A h \in Hi : Row(h) \in SUBSET Lo
      /\ \A h \in sum : Row(h) # {}
  BY DEF Inv, TypeOK, Structure, Row
<1>1. \E k \in Keys : Lowest(k)
  <2>1. PICK h \in sum : Least(sum, h) BY <1>0, Ends
  <2>2. PICK l \in Row(h) : Least(Row(h), l) BY <1>0, <2>1, Ends
  <2>3. <<h, l>> \in Keys /\ Lowest(<<h, l>>) BY <1>0, <2>1, <2>2, Pairs DEF Lowest
  <2> QED BY <2>3
<1>2. \E k \in Keys : Highest(k)
  <2>1. PICK h \in sum : Greatest(sum, h) BY <1>0, Ends
  <2>2. PICK l \in Row(h) : Greatest(Row(h), l) BY <1>0, <2>1, Ends
  <2>3. <<h, l>> \in Keys /\ Highest(<<h, l>>) BY <1>0, <2>1, <2>2, Pairs DEF Highest
  <2> QED BY <2>3
<1> QED BY <1>1, <1>2
LEMMA Held == ASSUME Inv, live PROVE
  /\ \A j \in Keys : At(j) # None <=> (j = min \/ (two /\ (j = max \/ kid[j] # None)))
  /\ \A j \in Keys : kid[j] # None => Less(min, j) /\ Less(j, max) /\ two
  /\ two => Less(min, max)
  /\ min \in Keys /\ max \in Keys
  BY NoVal, Order DEF Inv, TypeOK, Structure, At
LEMMA SuccRight == ASSUME NEW k \in Keys, NEW r \in Keys \cup {None}, Inv, live, SuccIs(k, r) PROVE Successor(k, r)
<1>a. \A j \in Keys : kid[j] # None => j[1] \in sum /\ j[2] \in Row(j[1]) BY Pairs DEF Inv, Structure, Row
<1>b. \A j \in Keys : j[2] \in Row(j[1]) => kid[j] # None BY Pairs DEF Row
<1>c. \A j \in Keys : j[1] \in Int /\ j[2] \in Int BY Pairs, Ints
<1>1. CASE Less(k, min) /\ r = min BY <1>1, Held, Order, NoVal DEF Successor
<1>2. CASE ~Less(k, min) /\ (two => ~Less(k, max)) /\ r = None BY <1>2, Held, Order, NoVal DEF Successor
<1>3. CASE /\ two /\ ~Less(k, min) /\ Less(k, max) /\ sum = {} /\ r = max
  <2>1. \A j \in Keys : kid[j] = None BY <1>3, <1>a
  <2> QED BY <1>3, <2>1, Held, Order, NoVal DEF Successor
<1>4. CASE /\ two /\ ~Less(k, min) /\ Less(k, max) /\ sum # {} /\ k = min /\ Lowest(r)
  <2>0. r \in Keys BY <1>4 DEF Lowest
  <2>1. kid[r] # None /\ \A j \in Keys : kid[j] # None => j = r \/ Less(r, j) BY <1>4, <2>0, LowestIs
  <2> QED BY <1>4, <2>0, <2>1, Held, Order, NoVal DEF Successor
<1> DEFINE here == {l \in Row(k[1]) : k[2] < l}
           above == {h \in sum : k[1] < h}
<1>5. CASE two /\ ~Less(k, min) /\ Less(k, max) /\ sum # {} /\ k # min /\ r \in Keys /\ r[1] = k[1] /\ Least(here, r[2])
  <2>1. kid[r] # None /\ Less(k, r) BY <1>5, <1>b, <1>c DEF Least, Less
  <2>2. ASSUME NEW j \in Keys, kid[j] # None, Less(k, j) PROVE j = r \/ Less(r, j)
    <3>1. CASE j[1] = k[1]
      <4>1. j[2] \in here BY <2>2, <3>1, <1>a, <1>c DEF Less
      <4>2. r[2] <= j[2] BY <4>1, <1>5 DEF Least
      <4> QED BY <4>2, <3>1, <1>5, <1>c, Pairs DEF Less
    <3>2. CASE j[1] # k[1] BY <2>2, <3>2, <1>5, <1>c DEF Less
    <3> QED BY <3>1, <3>2
  <2> QED BY <1>5, <2>1, <2>2, Held, Order, NoVal DEF Successor
<1>6. CASE two /\ ~Less(k, min) /\ Less(k, max) /\ sum # {} /\ k # min /\ here = {} /\ r \in Keys /\ Least(above, r[1]) /\ Least(Row(r[1]), r[2])
  <2>1. kid[r] # None /\ Less(k, r) BY <1>6, <1>b, <1>c DEF Least, Less
  <2>2. ASSUME NEW j \in Keys, kid[j] # None, Less(k, j) PROVE j = r \/ Less(r, j)
    <3>1. j[1] # k[1] BY <2>2, <1>a, <1>c, <1>6 DEF Less
    <3>2. j[1] \in above BY <2>2, <3>1, <1>a, <1>c DEF Less
    <3>3. r[1] <= j[1] BY <3>2, <1>6 DEF Least
    <3>4. CASE r[1] = j[1]
      <4>1. r[2] <= j[2] BY <2>2, <3>4, <1>a, <1>6 DEF Least
      <4> QED BY <4>1, <3>4, <1>c, Pairs, <1>6 DEF Less
    <3> QED BY <3>3, <3>4, <1>c, <1>6 DEF Less
  <2> QED BY <1>6, <2>1, <2>2, Held, Order, NoVal DEF Successor
<1>7. CASE two /\ ~Less(k, min) /\ Less(k, max) /\ sum # {} /\ k # min /\ here = {} /\ above = {} /\ r = max
  <2>2. ASSUME NEW j \in Keys, kid[j] # None, Less(k, j) PROVE FALSE
    <3>1. j[1] # k[1] BY <2>2, <1>a, <1>c, <1>7 DEF Less
    <3>2. j[1] \in above BY <2>2, <3>1, <1>a, <1>c DEF Less
    <3> QED BY <3>2, <1>7
  <2> QED BY <1>7, <2>2, Held, Order, NoVal DEF Successor
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7 DEF SuccIs

LEMMA PredRight == ASSUME NEW k \in Keys, NEW r \in Keys \cup {None}, Inv, live, PredIs(k, r) PROVE Predecessor(k, r)
<1>a. \A j \in Keys : kid[j] # None => j[1] \in sum /\ j[2] \in Row(j[1]) BY Pairs DEF Inv, Structure, Row
<1>b. \A j \in Keys : j[2] \in Row(j[1]) => kid[j] # None BY Pairs DEF Row
<1>c. \A j \in Keys : j[1] \in Int /\ j[2] \in Int BY Pairs, Ints
<1>1. CASE ~Less(min, k) /\ r = None BY <1>1, Held, Order, NoVal DEF Predecessor
<1>2. CASE ~two /\ Less(min, k) /\ r = min BY <1>2, Held, Order, NoVal DEF Predecessor
<1>8. CASE two /\ Less(max, k) /\ r = max BY <1>8, Held, Order, NoVal DEF Predecessor
<1>3. CASE /\ two /\ Less(min, k) /\ ~Less(max, k) /\ sum = {} /\ r = min
  <2>1. \A j \in Keys : kid[j] = None BY <1>3, <1>a
  <2> QED BY <1>3, <2>1, Held, Order, NoVal DEF Predecessor
<1>4. CASE /\ two /\ Less(min, k) /\ ~Less(max, k) /\ sum # {} /\ k = max /\ Highest(r)
  <2>0. r \in Keys BY <1>4 DEF Highest
  <2>1. kid[r] # None /\ \A j \in Keys : kid[j] # None => j = r \/ Less(j, r) BY <1>4, <2>0, HighestIs
  <2> QED BY <1>4, <2>0, <2>1, Held, Order, NoVal DEF Predecessor
<1> DEFINE here == {l \in Row(k[1]) : l < k[2]}
           below == {h \in sum : h < k[1]}
<1>5. CASE two /\ Less(min, k) /\ ~Less(max, k) /\ sum # {} /\ k # max /\ r \in Keys /\ r[1] = k[1] /\ Greatest(here, r[2])
  <2>1. kid[r] # None /\ Less(r, k) BY <1>5, <1>b, <1>c DEF Greatest, Less
  <2>2. ASSUME NEW j \in Keys, kid[j] # None, Less(j, k) PROVE j = r \/ Less(j, r)
    <3>1. CASE j[1] = k[1]
      <4>1. j[2] \in here BY <2>2, <3>1, <1>a, <1>c DEF Less
      <4>2. j[2] <= r[2] BY <4>1, <1>5 DEF Greatest
      <4> QED BY <4>2, <3>1, <1>5, <1>c, Pairs DEF Less
    <3>2. CASE j[1] # k[1] BY <2>2, <3>2, <1>5, <1>c DEF Less
    <3> QED BY <3>1, <3>2
  <2> QED BY <1>5, <2>1, <2>2, Held, Order, NoVal DEF Predecessor
<1>6. CASE two /\ Less(min, k) /\ ~Less(max, k) /\ sum # {} /\ k # max /\ here = {} /\ r \in Keys /\ Greatest(below, r[1]) /\ Greatest(Row(r[1]), r[2])
  <2>1. kid[r] # None /\ Less(r, k) BY <1>6, <1>b, <1>c DEF Greatest, Less
  <2>2. ASSUME NEW j \in Keys, kid[j] # None, Less(j, k) PROVE j = r \/ Less(j, r)
    <3>1. j[1] # k[1] BY <2>2, <1>a, <1>c, <1>6 DEF Less
    <3>2. j[1] \in below BY <2>2, <3>1, <1>a, <1>c DEF Less
    <3>3. j[1] <= r[1] BY <3>2, <1>6 DEF Greatest
    <3>4. CASE r[1] = j[1]
      <4>1. j[2] <= r[2] BY <2>2, <3>4, <1>a, <1>6 DEF Greatest
      <4> QED BY <4>1, <3>4, <1>c, Pairs, <1>6 DEF Less
    <3> QED BY <3>3, <3>4, <1>c, <1>6 DEF Less
  <2> QED BY <1>6, <2>1, <2>2, Held, Order, NoVal DEF Predecessor
<1>7. CASE two /\ Less(min, k) /\ ~Less(max, k) /\ sum # {} /\ k # max /\ here = {} /\ below = {} /\ r = min
  <2>2. ASSUME NEW j \in Keys, kid[j] # None, Less(j, k) PROVE FALSE
    <3>1. j[1] # k[1] BY <2>2, <1>a, <1>c, <1>7 DEF Less
    <3>2. j[1] \in below BY <2>2, <3>1, <1>a, <1>c DEF Less
    <3> QED BY <3>2, <1>7
  <2> QED BY <1>7, <2>2, Held, Order, NoVal DEF Predecessor
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8 DEF PredIs
LEMMA SuccHas == ASSUME NEW k \in Keys, Inv, live PROVE \E r \in Keys \cup {None} : SuccIs(k, r)
<1> DEFINE here == {l \in Row(k[1]) : k[2] < l}
           above == {h \in sum : k[1] < h}
<1>0. /\ min \in Keys /\ max \in Keys
      /\ sum \in SUBSET Hi /\ \A h \in Hi : Row(h) \in SUBSET Lo
      /\ \A h \in sum : Row(h) # {}
      /\ k[1] \in Hi
  BY Pairs DEF Inv, TypeOK, Structure, Row
<1>1. CASE Less(k, min) BY <1>0, <1>1 DEF SuccIs
<1>2. CASE ~Less(k, min) /\ (two => ~Less(k, max)) BY <1>2 DEF SuccIs
<1>3. CASE two /\ ~Less(k, min) /\ Less(k, max) /\ sum = {} BY <1>0, <1>3 DEF SuccIs
<1>4. CASE two /\ ~Less(k, min) /\ Less(k, max) /\ sum # {} /\ k = min BY <1>4, Reach DEF SuccIs
<1>5. CASE two /\ ~Less(k, min) /\ Less(k, max) /\ sum # {} /\ k # min /\ here # {}
  <2>1. here \in SUBSET Lo BY <1>0
  <2>2. PICK l \in here : Least(here, l) BY <2>1, <1>5, Ends DEF Least
  <2>3. <<k[1], l>> \in Keys /\ <<k[1], l>>[1] = k[1] /\ <<k[1], l>>[2] = l BY <2>1, <1>0, Pairs
  <2> QED BY <1>5, <2>2, <2>3 DEF SuccIs
<1>6. CASE two /\ ~Less(k, min) /\ Less(k, max) /\ sum # {} /\ k # min /\ here = {} /\ above # {}
  <2>1. above \in SUBSET Hi /\ above \in SUBSET sum BY <1>0
  <2>2. PICK h \in above : Least(above, h) BY <2>1, <1>6, Ends DEF Least
  <2>3. h \in Hi /\ Row(h) # {} /\ Row(h) \in SUBSET Lo BY <1>0, <2>1
  <2>4. PICK l \in Row(h) : Least(Row(h), l) BY <2>3, Ends DEF Least
  <2>5. <<h, l>> \in Keys /\ <<h, l>>[1] = h /\ <<h, l>>[2] = l BY <2>3, Pairs
  <2> QED BY <1>6, <2>2, <2>4, <2>5 DEF SuccIs
<1>7. CASE two /\ ~Less(k, min) /\ Less(k, max) /\ sum # {} /\ k # min /\ here = {} /\ above = {}
  BY <1>0, <1>7 DEF SuccIs
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7
LEMMA PredHas == ASSUME NEW k \in Keys, Inv, live PROVE \E r \in Keys \cup {None} : PredIs(k, r)
<1> DEFINE here == {l \in Row(k[1]) : l < k[2]}
           below == {h \in sum : h < k[1]}
<1>0. /\ min \in Keys /\ max \in Keys
      /\ sum \in SUBSET Hi /\ \A h \in Hi : Row(h) \in SUBSET Lo
      /\ \A h \in sum : Row(h) # {}
      /\ k[1] \in Hi
  BY Pairs DEF Inv, TypeOK, Structure, Row
<1>1. CASE ~Less(min, k) BY <1>1 DEF PredIs
<1>2. CASE ~two /\ Less(min, k) BY <1>0, <1>2 DEF PredIs
<1>8. CASE two /\ Less(max, k) BY <1>0, <1>8 DEF PredIs
<1>3. CASE two /\ Less(min, k) /\ ~Less(max, k) /\ sum = {} BY <1>0, <1>3 DEF PredIs
<1>4. CASE two /\ Less(min, k) /\ ~Less(max, k) /\ sum # {} /\ k = max BY <1>4, Reach DEF PredIs
<1>5. CASE two /\ Less(min, k) /\ ~Less(max, k) /\ sum # {} /\ k # max /\ here # {}
  <2>1. here \in SUBSET Lo BY <1>0
  <2>2. PICK l \in here : Greatest(here, l) BY <2>1, <1>5, Ends DEF Greatest
  <2>3. <<k[1], l>> \in Keys /\ <<k[1], l>>[1] = k[1] /\ <<k[1], l>>[2] = l BY <2>1, <1>0, Pairs
  <2> QED BY <1>5, <2>2, <2>3 DEF PredIs
<1>6. CASE two /\ Less(min, k) /\ ~Less(max, k) /\ sum # {} /\ k # max /\ here = {} /\ below # {}
  <2>1. below \in SUBSET Hi /\ below \in SUBSET sum BY <1>0
  <2>2. PICK h \in below : Greatest(below, h) BY <2>1, <1>6, Ends DEF Greatest
  <2>3. h \in Hi /\ Row(h) # {} /\ Row(h) \in SUBSET Lo BY <1>0, <2>1
  <2>4. PICK l \in Row(h) : Greatest(Row(h), l) BY <2>3, Ends DEF Greatest
  <2>5. <<h, l>> \in Keys /\ <<h, l>>[1] = h /\ <<h, l>>[2] = l BY <2>3, Pairs
  <2> QED BY <1>6, <2>2, <2>4, <2>5 DEF PredIs
<1>7. CASE two /\ Less(min, k) /\ ~Less(max, k) /\ sum # {} /\ k # max /\ here = {} /\ below = {}
  BY <1>0, <1>7 DEF PredIs
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8
LEMMA NextInv == Inv /\ [Next]_vars => Inv'
<1>1. CASE UNCHANGED vars BY <1>1, NoVal DEF vars, Inv, TypeOK, Structure
<1>2. ASSUME NEW k \in Keys, NEW v \in Val, Inv, FromMonad(k, v) \/ Insert(k, v) PROVE Inv' BY <1>2, MonadStep, InsertStep
<1>3. CASE Inv /\ PopMin
  <2>1. min \in Keys BY <1>3 DEF Inv, TypeOK
  <2> QED BY <1>3, <2>1, PopMinStep
<1>4. CASE Inv /\ PopMax
  <2>1. (IF two THEN max ELSE min) \in Keys BY <1>4 DEF Inv, TypeOK
  <2> QED BY <1>4, <2>1, PopMaxStep
<1>5. ASSUME NEW k \in Keys, Inv, Remove(k) PROVE Inv' BY <1>5, RemoveStep
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5 DEF Next
LEMMA OneFirst == ASSUME NEW a \in Keys, NEW b \in Keys PROVE (First(a) /\ First(b) => a = b) /\ (Last(a) /\ Last(b) => a = b)
  BY Order DEF First, Last
LEMMA AllRight == Inv => Right
<1> SUFFICES ASSUME Inv PROVE Right OBVIOUS
<1>1. \A k \in Keys, v \in Val : FromMonad(k, v) \/ Insert(k, v) => Sets(k, v) BY MonadStep, InsertStep
<1>2. ASSUME PopMin, NEW k \in Keys, First(k) PROVE Sets(k, None)
  <2>1. min \in Keys BY DEF Inv, TypeOK
  <2>2. First(min) /\ Sets(min, None) BY <1>2, <2>1, PopMinStep
  <2>3. k = min BY <1>2, <2>1, <2>2, OneFirst
  <2> QED BY <2>2, <2>3
<1>3. ASSUME PopMax, NEW k \in Keys, Last(k) PROVE Sets(k, None)
  <2> DEFINE m == IF two THEN max ELSE min
  <2>1. m \in Keys BY DEF Inv, TypeOK
  <2>2. Last(m) /\ Sets(m, None) BY <1>3, <2>1, PopMaxStep
  <2>3. k = m BY <1>3, <2>1, <2>2, OneFirst
  <2> HIDE DEF m
  <2> QED BY <2>2, <2>3
<1>4. \A k \in Keys : Remove(k) => Sets(k, None) BY RemoveStep
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Right
LEMMA AllAnswers == Inv => Answers
<1> SUFFICES ASSUME Inv, live PROVE Answers BY DEF Answers
<1>1. First(min) /\ Last(IF two THEN max ELSE min) BY Held, Order DEF First, Last
<1> QED BY <1>1, SuccHas, SuccRight, PredHas, PredRight DEF Answers
LEMMA AllCallable == Inv => Callable BY Reach DEF Callable
THEOREM Safe == Spec => [](Inv /\ Answers /\ Callable) /\ [][Right]_vars
<1>1. Spec => []Inv BY InitInv, NextInv, PTL DEF Spec
<1>2. Inv => Answers /\ Callable /\ Right BY AllAnswers, AllCallable, AllRight
<1>3. Inv /\ [Next]_vars => [Right]_vars BY <1>2
<1> QED BY <1>1, <1>2, <1>3, PTL DEF Spec
=============================================================================
