----------------------------- MODULE Collection -----------------------------
(***************************************************************************)
(* A collection of subtrees indexed by high keys, as a state machine.      *)
(* State: a map from high keys to non-empty ordered maps (the subtrees);   *)
(* the empty map means "no collection".  Removal takes a caller-supplied   *)
(* remover; the removers below cover every outcome a remover can have:     *)
(*   1 take the minimum   2 take the maximum   3 take entry l              *)
(*   4 take the minimum and give no tree back (everything vanishes)        *)
(*   5 take the maximum and give back an unrelated tree {l -> v}           *)
(*   6 decline (conditional removal only)                                  *)
(***************************************************************************)
EXTENDS OrdMap

CONSTANTS Hi, Lo, Val

VARIABLES col, obs
cvars == <<col, obs>>

Trees == {m \in AllMaps(Lo, Val) : DOMAIN m # {}}
Live == DOMAIN col # {}
Has(h) == h \in DOMAIN col
NoCol == [x \in {} |-> EmptyMap]
TypeOK == /\ DOMAIN col \subseteq Hi
          /\ \A h \in DOMAIN col : col[h] \in Trees
Same == UNCHANGED col
Say(op, h, how, l, v, r) == obs' = <<op, h, how, l, v, r>>
\* a subtree's entries as <<key, value, key, value, ...>>
Row(m) == LET s == Sorted(m) IN [i \in 1..(2 * Len(s)) |-> s[(i + 1) \div 2][2 - (i % 2)]]
Subtree(h) == IF Has(h) THEN Row(col[h]) ELSE <<>>
PutTree(h, t) == IF t = EmptyMap THEN [x \in DOMAIN col \ {h} |-> col[x]]
                 ELSE [x \in DOMAIN col \cup {h} |-> IF x = h THEN t ELSE col[x]]

Init == col = NoCol /\ obs = <<"init", 0, 0, 0, 0, <<>>>>

Create(h, t) == ~Live /\ col' = PutTree(h, t) /\ Say("create", h, 0, 0, 0, Row(t))
Get(h)    == Live /\ Same /\ Say("get", h, 0, 0, 0, Subtree(h))
GetMut(h) == Live /\ Same /\ Say("getm", h, 0, 0, 0, Subtree(h))
\* change the subtree through the mutable lookup
GetMutInsert(h, l, v) ==
    /\ Live /\ Has(h)
    /\ col' = PutTree(h, Put(col[h], l, v))
    /\ Say("getmi", h, 0, l, v, FindR(col[h], l))
\* <<1>> the key is new; otherwise <<0>> and the replaced pair, if any
InsertKey(h, l, v) ==
    /\ Live
    /\ IF Has(h) THEN /\ col' = PutTree(h, Put(col[h], l, v))
                      /\ Say("insk", h, 0, l, v, <<0>> \o FindR(col[h], l))
       ELSE /\ col' = PutTree(h, Single(l, v))
            /\ Say("insk", h, 0, l, v, <<1>>)

\* a remover: <<what it gives back, the pair it takes>>
Remover(t, how, l, v) ==
    CASE how = 1 -> <<Del(t, MinR(t)[1]), MinR(t)>>
      [] how = 2 -> <<Del(t, MaxR(t)[1]), MaxR(t)>>
      [] how = 3 -> <<Del(t, l), Kv(t, l)>>
      [] how = 4 -> <<EmptyMap, MinR(t)>>
      [] how = 5 -> <<Single(l, v), MaxR(t)>>
\* result: <<collection remains?, subtree vanished?, key, value>>, then what the remover was given
Taken(h, x) == LET c == PutTree(h, x[1]) IN
               <<Flag(DOMAIN c # {}), Flag(x[1] = EmptyMap)>> \o x[2] \o Row(col[h])
RemoveKey(h, how, l, v) ==
    /\ Live /\ Has(h) /\ (how = 3 => l \in DOMAIN col[h])
    /\ LET x == Remover(col[h], how, l, v) IN
         col' = PutTree(h, x[1]) /\ Say("remk", h, how, l, v, Taken(h, x))
MaybeRemoveKey(h, how, l, v) ==
    /\ Live
    /\ IF ~Has(h) THEN Same /\ Say("mrem", h, how, l, v, <<0>>)
       ELSE IF how = 6 \/ (how = 3 /\ l \notin DOMAIN col[h])
       THEN Same /\ Say("mrem", h, how, l, v, <<0>> \o Row(col[h]))
       ELSE LET x == Remover(col[h], how, l, v) IN
              col' = PutTree(h, x[1]) /\ Say("mrem", h, how, l, v, <<1>> \o Taken(h, x))
Drop == Live /\ col' = NoCol /\ Say("drop", 0, 0, 0, 0, <<>>)

Next == \/ \E h \in Hi, t \in Trees : Create(h, t)
        \/ \E h \in Hi : Get(h) \/ GetMut(h)
        \/ \E h \in Hi, l \in Lo, v \in Val : GetMutInsert(h, l, v) \/ InsertKey(h, l, v)
        \/ \E h \in Hi, how \in {1, 2, 4} : RemoveKey(h, how, 0, 0) \/ MaybeRemoveKey(h, how, 0, 0)
        \/ \E h \in Hi, l \in Lo : RemoveKey(h, 3, l, 0) \/ MaybeRemoveKey(h, 3, l, 0)
        \/ \E h \in Hi, l \in Lo, v \in Val : RemoveKey(h, 5, l, v) \/ MaybeRemoveKey(h, 5, l, v)
        \/ \E h \in Hi : MaybeRemoveKey(h, 6, 0, 0)
        \/ Drop

(***************************************************************************)
(* The listed properties, independently of the operators above.            *)
(***************************************************************************)
op == obs'[1]  hh == obs'[2]  how == obs'[3]  ll == obs'[4]  vv == obs'[5]  ret == obs'[6]
OthersKept == /\ DOMAIN col' \ {hh} = DOMAIN col \ {hh}
              /\ \A x \in DOMAIN col \ {hh} : col'[x] = col[x]
C13_Lookup == op \in {"get", "getm"} => (ret = <<>>) <=> (hh \notin DOMAIN col)
C13_Insert == op = "insk" =>
    /\ OthersKept /\ hh \in DOMAIN col' /\ col'[hh][ll] = vv
    /\ ret[1] = 1 <=> hh \notin DOMAIN col
    /\ IF ret[1] = 1 THEN DOMAIN col'[hh] = {ll}
       ELSE /\ DOMAIN col'[hh] = DOMAIN col[hh] \cup {ll}
            /\ \A x \in DOMAIN col[hh] \ {ll} : col'[hh][x] = col[hh][x]
            /\ ret = IF ll \in DOMAIN col[hh] THEN <<0, ll, col[hh][ll]>> ELSE <<0>>
Success == op = "remk" \/ (op = "mrem" /\ ret[1] = 1)
Core == IF op = "remk" THEN ret ELSE Tail(ret)
C14_Remove == op \in {"remk", "mrem"} =>
    IF Success
    THEN /\ OthersKept /\ hh \in DOMAIN col
         /\ (Core[1] = 0) <=> (DOMAIN col' = {})
         /\ (Core[2] = 1) <=> (hh \notin DOMAIN col')
         /\ Core[3] \in DOMAIN col[hh] /\ Core[4] = col[hh][Core[3]]
         /\ SubSeq(Core, 5, Len(Core)) = Row(col[hh])
    ELSE col' = col
PropsHold == [][C13_Lookup /\ C13_Insert /\ C14_Remove]_cvars

View == col
Digits(c) == [h \in 1..Cardinality(Hi) |-> [l \in 1..Cardinality(Lo) |->
                IF h \in DOMAIN c /\ l \in DOMAIN c[h] THEN c[h][l] ELSE 0]]
Emit == PrintT("C " \o ToString(<<Digits(col), obs', Digits(col')>>))
=============================================================================
