----------------------------- MODULE ColProof ------------------------------
(***************************************************************************)
(* ColDesign's invariant, proved with tlapm for any number of high keys    *)
(* and any subtrees: the array and its count, and the set with its list    *)
(* in key order, stay the map through every call.                          *)
(***************************************************************************)
EXTENDS ColDesign, FiniteSetTheorems, TLAPS
LEMMA HiInt == Hi \subseteq Int /\ IsFiniteSet(Hi)
  BY Given, FS_Interval DEF Hi
LEMMA Fin == ASSUME NEW S \in SUBSET Hi PROVE IsFiniteSet(S) /\ Cardinality(S) \in Nat
  BY HiInt, FS_Subset, FS_CardinalityType
LEMMA Part == ASSUME NEW S \in SUBSET Hi, NEW T \in SUBSET S
  PROVE Cardinality(T) \in Nat /\ Cardinality(T) <= Cardinality(S)
<1>1. IsFiniteSet(S) /\ T \in SUBSET Hi BY Fin
<1> QED BY <1>1, Fin, FS_Subset
LEMMA RankType == ASSUME NEW S \in SUBSET Hi, NEW h \in Hi
  PROVE Rank(S, h) \in Nat /\ Rank(S, h) <= Cardinality(S)
<1>1. {b \in S : b < h} \in SUBSET S OBVIOUS
<1> QED BY <1>1, Part DEF Rank
LEMMA RankLess == ASSUME NEW S \in SUBSET Hi, NEW b \in S, NEW h \in Hi, b < h
  PROVE Rank(S, b) < Rank(S, h)
<1> DEFINE A == {x \in S : x < b}
<1> DEFINE B == {x \in S : x < h}
<1>1. A \in SUBSET Hi /\ B \in SUBSET Hi /\ b \notin A /\ b \in B BY HiInt
<1>2. A \cup {b} \in SUBSET B BY HiInt
<1>3. Cardinality(A \cup {b}) = Cardinality(A) + 1 BY <1>1, Fin, FS_AddElement
<1>4. Cardinality(A \cup {b}) <= Cardinality(B) BY <1>1, <1>2, Part
<1>5. Cardinality(A) \in Nat /\ Cardinality(B) \in Nat BY <1>1, Fin
<1> HIDE DEF A, B
<1>6. Cardinality(A) < Cardinality(B) BY <1>3, <1>4, <1>5
<1> QED BY <1>6 DEF Rank, A, B
LEMMA RankIn == ASSUME NEW S \in SUBSET Hi, NEW h \in S PROVE Rank(S, h) < Cardinality(S)
<1> DEFINE A == {x \in S : x < h}
<1>1. A \in SUBSET Hi /\ h \notin A /\ A \cup {h} \in SUBSET S BY HiInt
<1>2. Cardinality(A \cup {h}) = Cardinality(A) + 1 BY <1>1, Fin, FS_AddElement
<1>3. Cardinality(A \cup {h}) <= Cardinality(S) BY <1>1, Part
<1>4. Cardinality(A) \in Nat /\ Cardinality(S) \in Nat BY <1>1, Fin
<1> HIDE DEF A
<1>5. Cardinality(A) < Cardinality(S) BY <1>2, <1>3, <1>4
<1> QED BY <1>5 DEF Rank, A
LEMMA RankAdd == ASSUME NEW S \in SUBSET Hi, NEW h \in Hi, h \notin S, NEW b \in Hi
  PROVE Rank(S \cup {h}, b) = IF h < b THEN Rank(S, b) + 1 ELSE Rank(S, b)
<1> DEFINE A == {x \in S : x < b}
<1>1. A \in SUBSET Hi /\ h \notin A OBVIOUS
<1>2. CASE h < b
  <2>1. {x \in S \cup {h} : x < b} = A \cup {h} BY <1>2
  <2>2. Cardinality(A \cup {h}) = Cardinality(A) + 1 BY <1>1, Fin, FS_AddElement
  <2> QED BY <1>2, <2>1, <2>2 DEF Rank
<1>3. CASE ~(h < b)
  <2>1. {x \in S \cup {h} : x < b} = A BY <1>3
  <2> QED BY <1>3, <2>1 DEF Rank
<1> QED BY <1>2, <1>3
LEMMA RankDel == ASSUME NEW S \in SUBSET Hi, NEW h \in S, NEW b \in Hi
  PROVE Rank(S, b) = IF h < b THEN Rank(S \ {h}, b) + 1 ELSE Rank(S \ {h}, b)
<1>1. S \ {h} \in SUBSET Hi /\ h \in Hi /\ h \notin S \ {h} /\ (S \ {h}) \cup {h} = S OBVIOUS
<1>2. Rank((S \ {h}) \cup {h}, b) = IF h < b THEN Rank(S \ {h}, b) + 1 ELSE Rank(S \ {h}, b)
  BY ONLY <1>1, RankAdd, b \in Hi
<1> QED BY <1>1, <1>2
LEMMA Sizes == ASSUME NEW S \in SUBSET Hi, NEW h \in Hi
  PROVE /\ h \notin S => Cardinality(S \cup {h}) = Cardinality(S) + 1
        /\ h \in S => Cardinality(S \ {h}) = Cardinality(S) - 1
        /\ Cardinality(S) = 0 <=> S = {}
  BY Fin, FS_AddElement, FS_RemoveElement, FS_EmptySet
LEMMA FilledIs == ASSUME NEW f \in [Hi -> Tree \cup {None}], NEW h \in Hi, NEW t \in Tree \cup {None}
  PROVE /\ Filled(f) \in SUBSET Hi
        /\ t # None => Filled([f EXCEPT ![h] = t]) = Filled(f) \cup {h}
        /\ t = None => Filled([f EXCEPT ![h] = t]) = Filled(f) \ {h}
  BY DEF Filled
LEMMA SetAtIs == ASSUME NEW s \in Seq(Tree), NEW p \in 1..Len(s), NEW t \in Tree
  PROVE /\ SetAt(s, p, t) \in Seq(Tree) /\ Len(SetAt(s, p, t)) = Len(s)
        /\ \A i \in 1..Len(s) : SetAt(s, p, t)[i] = IF i = p THEN t ELSE s[i]
  BY DEF SetAt
LEMMA InsertAtIs == ASSUME NEW s \in Seq(Tree), NEW p \in 1..(Len(s) + 1), NEW t \in Tree
  PROVE /\ InsertAt(s, p, t) \in Seq(Tree) /\ Len(InsertAt(s, p, t)) = Len(s) + 1
        /\ \A i \in 1..(Len(s) + 1) : InsertAt(s, p, t)[i] = IF i < p THEN s[i] ELSE IF i = p THEN t ELSE s[i - 1]
<1>1. Len(s) \in Nat OBVIOUS
<1>2. \A i \in 1..(Len(s) + 1) : (IF i < p THEN s[i] ELSE IF i = p THEN t ELSE s[i - 1]) \in Tree
  <2> TAKE i \in 1..(Len(s) + 1)
  <2>1. CASE i < p
    <3>1. i \in 1..Len(s) BY <1>1, <2>1
    <3> QED BY <2>1, <3>1
  <2>2. CASE i > p
    <3>1. i - 1 \in 1..Len(s) BY <1>1, <2>2
    <3> QED BY <2>2, <3>1
  <2> QED BY <2>1, <2>2
<1>3. InsertAt(s, p, t) \in [1..(Len(s) + 1) -> Tree] BY <1>2 DEF InsertAt
<1>4. Len(s) + 1 \in Nat BY <1>1
<1> QED BY <1>1, <1>3, <1>4 DEF InsertAt
LEMMA RemoveAtIs == ASSUME NEW s \in Seq(Tree), NEW p \in 1..Len(s)
  PROVE /\ RemoveAt(s, p) \in Seq(Tree) /\ Len(RemoveAt(s, p)) = Len(s) - 1
        /\ \A i \in 1..(Len(s) - 1) : RemoveAt(s, p)[i] = IF i < p THEN s[i] ELSE s[i + 1]
<1>1. Len(s) \in Nat /\ Len(s) - 1 \in Nat OBVIOUS
<1>2. \A i \in 1..(Len(s) - 1) : (IF i < p THEN s[i] ELSE s[i + 1]) \in Tree
  <2> TAKE i \in 1..(Len(s) - 1)
  <2>1. i \in 1..Len(s) /\ i + 1 \in 1..Len(s) BY <1>1
  <2> QED BY <2>1
<1>3. RemoveAt(s, p) \in [1..(Len(s) - 1) -> Tree] BY <1>2 DEF RemoveAt
<1> QED BY <1>1, <1>3 DEF RemoveAt

LEMMA InitInv == Init => Inv
<1> SUFFICES ASSUME Init PROVE Inv OBVIOUS
<1>1. Filled(abs) = {} /\ Cardinality({}) = 0 BY FS_EmptySet DEF Init, NoTree, Filled
<1> QED BY <1>1 DEF Init, NoTree, Inv, TypeOK, ArrayOK, BytesOK, Agree
LEMMA CreateStep == ASSUME Inv, NEW h \in Hi, NEW t \in Tree, Create(h, t) PROVE Inv'
<1>1. t # None BY Given
<1>2. abs' = [NoTree EXCEPT ![h] = t] /\ NoTree \in [Hi -> Tree \cup {None}] BY DEF Create, NoTree
<1>3. Filled(NoTree) = {} BY DEF Filled, NoTree
<1>4. Filled(abs') = {h} BY <1>1, <1>2, <1>3, FilledIs
<1>5. Cardinality({h}) = 1 BY FS_Singleton
<1>6. Rank({h}, h) = 0
  <2>1. {b \in {h} : b < h} = {} BY HiInt
  <2> QED BY <2>1, FS_EmptySet DEF Rank
<1>7. list' \in Seq(Tree) /\ Len(list') = 1 /\ list'[1] = t BY DEF Create
<1> QED BY <1>1, <1>2, <1>4, <1>5, <1>6, <1>7 DEF Create, Inv, TypeOK, ArrayOK, BytesOK, Agree, Pos
LEMMA ChangeIs == ASSUME Inv, NEW h \in set, NEW t \in Tree,
                         abs' = [abs EXCEPT ![h] = t], set' = set, list' = SetAt(list, Pos(h), t)
  PROVE Filled(abs') = set /\ BytesOK' /\ list' \in Seq(Tree) /\ abs' \in [Hi -> Tree \cup {None}]
<1>0. t # None /\ h \in Hi /\ set \in SUBSET Hi BY Given DEF Inv, TypeOK
<1>1. Filled(abs') = set BY <1>0, FilledIs DEF Inv, TypeOK, BytesOK
<1>2. Pos(h) \in 1..Len(list) BY DEF Inv, BytesOK
<1>3. /\ list' \in Seq(Tree) /\ Len(list') = Len(list)
      /\ \A i \in 1..Len(list) : list'[i] = IF i = Pos(h) THEN t ELSE list[i]
  BY <1>2, SetAtIs DEF Inv, TypeOK
<1>4. ASSUME NEW b \in set PROVE Pos(b)' \in 1..Len(list') /\ list'[Pos(b)'] = abs'[b]
  <2>1. Pos(b)' = Pos(b) /\ Pos(b) \in 1..Len(list) /\ list[Pos(b)] = abs[b] BY DEF Inv, BytesOK, Pos
  <2>2. CASE b = h BY <1>0, <1>3, <2>1, <2>2 DEF Inv, TypeOK
  <2>3. CASE b # h
    <3>1. Rank(set, b) # Rank(set, h)
      <4>1. b < h \/ h < b BY <2>3, <1>0, HiInt
      <4>2. Rank(set, b) \in Nat /\ Rank(set, h) \in Nat BY <1>0, RankType
      <4>3. b < h => Rank(set, b) < Rank(set, h) BY <1>0, RankLess
      <4>4. h < b => Rank(set, h) < Rank(set, b) BY <1>0, RankLess
      <4> QED BY <4>1, <4>2, <4>3, <4>4
    <3>2. Pos(b) # Pos(h) BY <3>1, <1>0, RankType DEF Pos
    <3>3. abs'[b] = abs[b] BY <2>3, <1>0 DEF Inv, TypeOK
    <3> QED BY <1>3, <2>1, <3>2, <3>3
  <2> QED BY <2>2, <2>3
<1> QED BY <1>0, <1>1, <1>3, <1>4 DEF Inv, TypeOK, BytesOK, Pos
LEMMA ChangeStep == ASSUME Inv, NEW h \in Hi, NEW t \in Tree, Change(h, t) PROVE Inv'
<1>1. h \in set /\ set' = set /\ abs' = [abs EXCEPT ![h] = t] /\ list' = SetAt(list, Pos(h), t) BY DEF Change
<1>2. Filled(abs') = set /\ BytesOK' /\ list' \in Seq(Tree) /\ abs' \in [Hi -> Tree \cup {None}] BY <1>1, ChangeIs
<1>3. slots' = abs' /\ count' = count /\ count = Cardinality(set) BY <1>1 DEF Change, Inv, ArrayOK, BytesOK
<1> QED BY <1>1, <1>2, <1>3 DEF Change, Inv, TypeOK, ArrayOK, Agree
LEMMA InsertStep == ASSUME Inv, NEW h \in Hi, NEW t \in Tree, Insert(h, t) PROVE Inv'
<1>0. t # None /\ set \in SUBSET Hi /\ h \notin set /\ set' = set \cup {h} BY Given DEF Inv, TypeOK, Insert
<1>1. abs' = [abs EXCEPT ![h] = t] /\ abs \in [Hi -> Tree \cup {None}] BY DEF Insert, Inv, TypeOK
<1>2. Filled(abs') = set' BY <1>0, <1>1, FilledIs DEF Inv, BytesOK
<1>3. Cardinality(set') = Cardinality(set) + 1 /\ Cardinality(set) \in Nat BY <1>0, Sizes, Fin
<1>4. Pos(h) \in 1..(Len(list) + 1)
  <2>1. Rank(set, h) \in Nat /\ Rank(set, h) <= Cardinality(set) BY <1>0, RankType
  <2> QED BY <2>1, <1>3 DEF Pos, Inv, BytesOK
<1>l. Len(list) \in Nat BY DEF Inv, TypeOK
<1>5. /\ list' \in Seq(Tree) /\ Len(list') = Len(list) + 1
      /\ \A i \in 1..(Len(list) + 1) : list'[i] = IF i < Pos(h) THEN list[i] ELSE IF i = Pos(h) THEN t ELSE list[i - 1]
  BY <1>4, InsertAtIs DEF Insert, Inv, TypeOK
<1>6. ASSUME NEW b \in set' PROVE Pos(b)' \in 1..Len(list') /\ list'[Pos(b)'] = abs'[b]
  <2>0. b \in Hi BY <1>0
  <2>1. Rank(set', b) = IF h < b THEN Rank(set, b) + 1 ELSE Rank(set, b) BY <1>0, <2>0, RankAdd
  <2>2. Rank(set, b) \in Nat /\ Rank(set, h) \in Nat BY <1>0, <2>0, RankType
  <2>3. CASE b = h
    <3>1. Pos(b)' = Pos(h) BY <2>1, <2>3, HiInt DEF Pos
    <3> QED BY <1>1, <1>4, <1>5, <2>3, <3>1
  <2>4. CASE b # h
    <3>1. b \in set /\ abs'[b] = abs[b] BY <1>0, <1>1, <2>4
    <3>2. Pos(b) \in 1..Len(list) /\ list[Pos(b)] = abs[b] BY <3>1 DEF Inv, BytesOK
    <3>3. CASE b < h
      <4>1. Rank(set, b) < Rank(set, h) BY <1>0, <3>1, <3>3, RankLess
      <4>2. Pos(b)' = Pos(b) BY <2>1, <3>3, <2>0, HiInt DEF Pos
      <4>3. Pos(b) < Pos(h) BY <4>1, <2>2 DEF Pos
      <4>4. Pos(b) \in 1..(Len(list) + 1) BY <3>2, <1>l
      <4>5. list'[Pos(b)] = list[Pos(b)] BY <1>5, <4>3, <4>4
      <4>6. Pos(b) \in 1..Len(list') BY <1>5, <4>4
      <4> QED BY <3>1, <3>2, <4>2, <4>5, <4>6
    <3>4. CASE h < b
      <4>1. {x \in set : x < h} \in SUBSET {x \in set : x < b} BY <3>4, <2>0, <1>0, HiInt
      <4>2. {x \in set : x < b} \in SUBSET Hi BY <1>0
      <4>3. Rank(set, h) <= Rank(set, b) BY <4>1, <4>2, Part DEF Rank
      <4>4. Pos(b)' = Pos(b) + 1 BY <2>1, <2>2, <3>4 DEF Pos
      <4>5. Pos(b) >= Pos(h) BY <4>3, <2>2 DEF Pos
      <4>6. Pos(b) + 1 \in 1..(Len(list) + 1) /\ Pos(b) + 1 > Pos(h) /\ (Pos(b) + 1) - 1 = Pos(b)
        <5>1. Pos(b) \in Int /\ Pos(h) \in Int /\ 1 <= Pos(b) /\ Pos(b) <= Len(list) BY <3>2, <1>4, <1>l
        <5> HIDE DEF Pos
        <5> QED BY <5>1, <4>5, <1>l
      <4>7. list'[Pos(b) + 1] = list[(Pos(b) + 1) - 1] BY <1>5, <4>6, <1>4
      <4> QED BY <1>5, <3>1, <3>2, <4>4, <4>6, <4>7
    <3> QED BY <2>4, <3>3, <3>4, <2>0, HiInt
  <2> QED BY <2>3, <2>4
<1>7. BytesOK' BY <1>2, <1>3, <1>5, <1>6 DEF BytesOK, Inv, Pos
<1>8. ArrayOK' BY <1>1, <1>2, <1>3 DEF Insert, Inv, ArrayOK, BytesOK
<1>9. TypeOK'
  <2>1. abs' \in [Hi -> Tree \cup {None}] BY <1>1
  <2> QED BY <2>1, <1>0, <1>5, <1>8, <1>3, <1>2 DEF TypeOK, ArrayOK, Insert, Inv
<1> QED BY <1>7, <1>8, <1>9 DEF Inv, Agree, Insert
LEMMA DropIs == ASSUME Inv, NEW h \in set, abs' = [abs EXCEPT ![h] = None],
                       set' = set \ {h}, list' = RemoveAt(list, Pos(h))
  PROVE Filled(abs') = set' /\ BytesOK' /\ list' \in Seq(Tree) /\ Cardinality(set') = Cardinality(set) - 1
<1>0. set \in SUBSET Hi /\ h \in Hi /\ abs \in [Hi -> Tree \cup {None}] BY DEF Inv, TypeOK
<1>1. Filled(abs') = set' BY <1>0, FilledIs DEF Inv, BytesOK
<1>2. Cardinality(set') = Cardinality(set) - 1 /\ Cardinality(set) \in Nat BY <1>0, Sizes, Fin
<1>3. Pos(h) \in 1..Len(list) BY DEF Inv, BytesOK
<1>l. Len(list) \in Nat BY DEF Inv, TypeOK
<1>4. /\ list' \in Seq(Tree) /\ Len(list') = Len(list) - 1
      /\ \A i \in 1..(Len(list) - 1) : list'[i] = IF i < Pos(h) THEN list[i] ELSE list[i + 1]
  BY <1>3, RemoveAtIs DEF Inv, TypeOK
<1>5. ASSUME NEW b \in set' PROVE Pos(b)' \in 1..Len(list') /\ list'[Pos(b)'] = abs'[b]
  <2>0. b \in set /\ b \in Hi /\ b # h /\ abs'[b] = abs[b] BY <1>0
  <2>1. Rank(set, b) = IF h < b THEN Rank(set', b) + 1 ELSE Rank(set', b) BY <1>0, <2>0, RankDel
  <2>2. Rank(set, b) \in Nat /\ Rank(set, h) \in Nat /\ Rank(set', b) \in Nat BY <1>0, <2>0, RankType
  <2>3. Pos(b) \in 1..Len(list) /\ list[Pos(b)] = abs[b] BY <2>0 DEF Inv, BytesOK
  <2>4. CASE b < h
    <3>1. Pos(b)' = Pos(b) BY <2>1, <2>4, <1>0, <2>0, HiInt DEF Pos
    <3>2. Rank(set, b) < Rank(set, h) BY <1>0, <2>0, <2>4, RankLess
    <3>3. Pos(b) < Pos(h) BY <3>2, <2>2 DEF Pos
    <3>4. Pos(b) \in 1..(Len(list) - 1)
      <4>1. Pos(b) \in Int /\ Pos(h) \in Int /\ 1 <= Pos(b) /\ Pos(h) <= Len(list) BY <1>3, <2>3, <1>l
      <4> QED BY <4>1, <3>3, <1>l
    <3> QED BY <1>4, <2>0, <2>3, <3>1, <3>3, <3>4
  <2>5. CASE h < b
    <3>1. Pos(b) = Pos(b)' + 1 BY <2>1, <2>2, <2>5 DEF Pos
    <3>2. Rank(set, h) < Rank(set, b) BY <1>0, <2>0, <2>5, RankLess
    <3>3. Pos(h) < Pos(b) BY <3>2, <2>2 DEF Pos
    <3>4. Pos(b)' \in Nat /\ Pos(b)' \in 1..(Len(list) - 1) /\ ~(Pos(b)' < Pos(h))
      <4>1. Pos(b)' \in Nat BY <2>2 DEF Pos
      <4>2. Pos(b) \in Int /\ Pos(h) \in Int /\ 1 <= Pos(h) /\ Pos(b) <= Len(list) BY <1>3, <2>3, <1>l
      <4> QED BY <4>1, <4>2, <3>1, <3>3, <1>l
    <3>5. list'[Pos(b)'] = list[Pos(b)' + 1] BY <1>4, <3>4
    <3> QED BY <1>4, <2>0, <2>3, <3>1, <3>4, <3>5
  <2> QED BY <2>0, <2>4, <2>5, <1>0, HiInt
<1>6. Len(list') = Cardinality(set') BY <1>2, <1>4 DEF Inv, BytesOK
<1> QED BY <1>1, <1>2, <1>4, <1>5, <1>6 DEF BytesOK, Pos
LEMMA RemoveStep == ASSUME Inv, NEW h \in Hi, NEW t \in Tree \cup {None}, Remove(h, t) PROVE Inv'
<1>0. h \in set /\ set \in SUBSET Hi /\ abs' = [abs EXCEPT ![h] = t] /\ slots' = abs' BY DEF Remove, Inv, TypeOK, ArrayOK, BytesOK, Filled
<1>a. abs' \in [Hi -> Tree \cup {None}] BY <1>0 DEF Inv, TypeOK
<1>c. count = Cardinality(set) /\ count \in Nat /\ Len(list) = Cardinality(set) BY DEF Inv, TypeOK, ArrayOK, BytesOK
<1>1. CASE t = None
  <2>1. set' = set \ {h} /\ list' = RemoveAt(list, Pos(h)) /\ count' = count - 1 BY <1>1 DEF Remove
  <2>2. Filled(abs') = set' /\ BytesOK' /\ list' \in Seq(Tree) /\ Cardinality(set') = Cardinality(set) - 1
    BY <1>0, <1>1, <2>1, DropIs
  <2>3. set' \in SUBSET Hi /\ count' = Cardinality(set') BY <1>0, <1>c, <2>1, <2>2
  <2>4. ArrayOK' /\ TypeOK' BY <1>0, <1>a, <2>2, <2>3, Fin DEF ArrayOK, TypeOK
  <2>5. (count' # 0) = (Filled(abs') # {}) /\ (Len(list') # 0) = (Filled(abs') # {}) BY <2>2, <2>3, Sizes DEF BytesOK
  <2> QED BY <2>2, <2>4, <2>5 DEF Inv, Agree, Remove
<1>2. CASE t # None
  <2>1. t \in Tree /\ set' = set /\ list' = SetAt(list, Pos(h), t) /\ count' = count BY <1>2 DEF Remove
  <2>2. Filled(abs') = set /\ BytesOK' /\ list' \in Seq(Tree) BY <1>0, <2>1, ChangeIs
  <2>3. ArrayOK' /\ TypeOK' BY <1>0, <1>a, <1>c, <2>1, <2>2 DEF ArrayOK, TypeOK
  <2>4. Len(list') = Cardinality(set) BY <2>1, <2>2 DEF BytesOK
  <2>5. (count' # 0) = (Filled(abs') # {}) /\ (Len(list') # 0) = (Filled(abs') # {}) BY <1>0, <1>c, <2>1, <2>2, <2>4, Sizes
  <2> QED BY <2>2, <2>3, <2>5 DEF Inv, Agree, Remove
<1> QED BY <1>1, <1>2
THEOREM ColSafe == Spec => []Inv
<1>1. Init => Inv BY InitInv
<1>2. Inv /\ [Next]_vars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
  <2>1. CASE UNCHANGED vars BY <2>1 DEF vars, Inv, TypeOK, ArrayOK, BytesOK, Agree, Pos
  <2>2. CASE Next BY <2>2, CreateStep, ChangeStep, InsertStep, RemoveStep DEF Next
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1, <1>2, PTL DEF Spec
=============================================================================
