------------------------------- MODULE VebMap -------------------------------
(***************************************************************************)
(* The tree interface as a state machine over an abstract ordered map.     *)
(* One action per public operation; `obs` records the call and its result  *)
(* (call name, two integer arguments, result tuple).  The library is       *)
(* sequential and its linearisation point is the return of the call, so    *)
(* one call is one action.                                                 *)
(*                                                                         *)
(* A tree is never empty: removing the last entry, a successful conversion *)
(* into a single pair, or dropping the tree leaves no tree (`Gone`), and   *)
(* the only way on from there is FromMonad.                                *)
(***************************************************************************)
EXTENDS OrdMap

CONSTANTS Key,      \* finite set of integers
          Val       \* finite set of positive integers (0 = "do not write")

VARIABLES tree,     \* a non-empty map, or EmptyMap when there is no tree
          obs

vars == <<tree, obs>>
Live == DOMAIN tree # {}
Say(op, a, b, r) == obs' = <<op, a, b, r>>
Same == UNCHANGED tree

TypeOK == tree \in AllMaps(Key, Val)

Init == tree = EmptyMap /\ obs = <<"init", 0, 0, <<>>>>

FromMonad(k, v) == ~Live /\ tree' = Single(k, v) /\ Say("from", k, v, <<>>)

\* ------------------------------------------------------------ queries
Find(k)  == Live /\ Same /\ Say("find", k, 0, FindR(tree, k))
Pred(k)  == Live /\ Same /\ Say("pred", k, 0, PredR(tree, k))
Succ(k)  == Live /\ Same /\ Say("succ", k, 0, SuccR(tree, k))
MinVal   == Live /\ Same /\ Say("min", 0, 0, MinR(tree))
MaxVal   == Live /\ Same /\ Say("max", 0, 0, MaxR(tree))
IsMonad  == Live /\ Same /\ Say("ismonad", 0, 0, <<Flag(Cardinality(DOMAIN tree) = 1)>>)
Count    == Live /\ Same /\ Say("len", 0, 0, <<Cardinality(DOMAIN tree)>>)
\* full ordered read-out (what a complete iteration must deliver)
Dump     == Live /\ Same /\ Say("dump", 0, 0, Sorted(tree))

\* ------------------------------------- mutable queries, w = 0: no write
Mut(op, k, w, e) == /\ Live
                    /\ tree' = IF w = 0 THEN tree ELSE Write(tree, e, w)
                    /\ Say(op, k, w, e)
FindMut(k, w) == Mut("findm", k, w, FindR(tree, k))
PredMut(k, w) == Mut("predm", k, w, PredR(tree, k))
SuccMut(k, w) == Mut("succm", k, w, SuccR(tree, k))
MinMut(w)     == Live /\ Mut("minm", 0, w, MinR(tree))
MaxMut(w)     == Live /\ Mut("maxm", 0, w, MaxR(tree))

\* ------------------------------------------------------------ updates
Insert(k, v) == Live /\ tree' = Put(tree, k, v) /\ Say("ins", k, v, FindR(tree, k))

\* <<0>> absent, otherwise <<1, something remains?, key, value>>
Remains(m) == Flag(DOMAIN m # {})
Remove(k) == /\ Live
             /\ IF k \in DOMAIN tree
                THEN LET m == Del(tree, k) IN
                       tree' = m /\ Say("rem", k, 0, <<1, Remains(m)>> \o Kv(tree, k))
                ELSE Same /\ Say("rem", k, 0, <<0>>)
Pop(op, e) == LET m == Del(tree, e[1]) IN tree' = m /\ Say(op, 0, 0, <<Remains(m)>> \o e)
RemoveMin == Live /\ Pop("remmin", MinR(tree))
RemoveMax == Live /\ Pop("remmax", MaxR(tree))
IntoMonad == /\ Live
             /\ IF Cardinality(DOMAIN tree) = 1
                THEN tree' = EmptyMap /\ Say("into", 0, 0, <<1>> \o MinR(tree))
                ELSE Same /\ Say("into", 0, 0, <<0>>)
\* dropping the tree drops every stored value exactly once, in any order
DropTree == /\ Live /\ tree' = EmptyMap
            /\ Say("drop", 0, 0, [i \in 1..Cardinality(DOMAIN tree) |-> Sorted(tree)[i][2]])

W == Val \cup {0}
Query  == \/ \E k \in Key : Find(k) \/ Pred(k) \/ Succ(k)
          \/ MinVal \/ MaxVal \/ IsMonad \/ Count \/ Dump
Mutate == \/ \E k \in Key, w \in W : FindMut(k, w) \/ PredMut(k, w) \/ SuccMut(k, w)
          \/ \E w \in W : MinMut(w) \/ MaxMut(w)
Update == \/ \E k \in Key, v \in Val : FromMonad(k, v) \/ Insert(k, v)
          \/ \E k \in Key : Remove(k)
          \/ RemoveMin \/ RemoveMax \/ IntoMonad \/ DropTree
Next == Query \/ Mutate \/ Update
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The listed properties, stated on the abstract machine.  They are        *)
(* independent characterisations (not copies of the operators above), so   *)
(* checking them guards the specification itself.                          *)
(***************************************************************************)
op == obs'[1]   arg == obs'[2]   arg2 == obs'[3]   ret == obs'[4]
Dom == DOMAIN tree
DomN == DOMAIN tree'
Ent(m) == {<<k, m[k]>> : k \in DOMAIN m}

C01_Lookup == op \in {"find", "findm"} =>
    /\ (ret = <<>>) <=> (arg \notin Dom)
    /\ ret # <<>> => ret \in Ent(tree) /\ ret[1] = arg
C02_Extremes ==
    /\ op \in {"min", "minm"} => ret \in Ent(tree) /\ \A k \in Dom : ret[1] <= k
    /\ op \in {"max", "maxm"} => ret \in Ent(tree) /\ \A k \in Dom : ret[1] >= k
C03_Neighbours ==
    /\ op \in {"pred", "predm"} =>
         IF ret = <<>> THEN \A k \in Dom : k >= arg
         ELSE ret \in Ent(tree) /\ ret[1] < arg /\ ~\E k \in Dom : ret[1] < k /\ k < arg
    /\ op \in {"succ", "succm"} =>
         IF ret = <<>> THEN \A k \in Dom : k <= arg
         ELSE ret \in Ent(tree) /\ ret[1] > arg /\ ~\E k \in Dom : arg < k /\ k < ret[1]
Others(k) == \A x \in (Dom \cup DomN) \ {k} : x \in Dom /\ x \in DomN /\ tree[x] = tree'[x]
C04_Insert == op = "ins" =>
    /\ arg \in DomN /\ tree'[arg] = arg2 /\ Others(arg)
    /\ ret = (IF arg \in Dom THEN <<arg, tree[arg]>> ELSE <<>>)
C05_Remove == op = "rem" =>
    IF arg \in Dom
    THEN /\ arg \notin DomN /\ Others(arg)
         /\ ret = <<1, Flag(Cardinality(Dom) > 1), arg, tree[arg]>>
    ELSE tree' = tree /\ ret = <<0>>
C06_Pop == op \in {"remmin", "remmax"} =>
    LET k == ret[2] IN
    /\ <<k, ret[3]>> \in Ent(tree) /\ k \notin DomN /\ Others(k)
    /\ ret[1] = Flag(Cardinality(Dom) > 1)
    /\ op = "remmin" => \A x \in DomN : x > k
    /\ op = "remmax" => \A x \in DomN : x < k
C07_Monad ==
    /\ op = "ismonad" => (ret = <<1>>) <=> (\E k \in Key : Dom = {k})
    /\ op = "from" => Ent(tree') = {<<arg, arg2>>}
    /\ op = "into" => IF \E k \in Key : Dom = {k}
                      THEN DomN = {} /\ {<<ret[2], ret[3]>>} = Ent(tree) /\ ret[1] = 1
                      ELSE tree' = tree /\ ret = <<0>>
C08_Write == op \in {"findm", "predm", "succm", "minm", "maxm"} =>
    /\ DomN = Dom
    /\ \A k \in Dom : tree'[k] # tree[k] => ret # <<>> /\ k = ret[1] /\ tree'[k] = arg2
    /\ (arg2 # 0 /\ ret # <<>>) => tree'[ret[1]] = arg2
C10_Len == op = "len" => ret = <<Cardinality(Dom)>>
\* every value is in exactly one place: in the map, handed back, or dropped
Bag(m) == [v \in Val |-> Cardinality({k \in DOMAIN m : m[k] = v})]
BagOf(s) == [v \in Val |-> Cardinality({i \in DOMAIN s : s[i] = v})]
Given == IF op \in {"ins", "from"} THEN <<arg2>> ELSE <<>>
Back  == CASE op = "ins" /\ ret # <<>> -> <<ret[2]>>
           [] op = "rem" /\ ret[1] = 1 -> <<ret[4]>>
           [] op \in {"remmin", "remmax"} -> <<ret[3]>>
           [] op = "into" /\ ret[1] = 1 -> <<ret[3]>>
           [] op = "drop" -> ret
           [] OTHER -> <<>>
C16_Owned == op \in {"findm", "predm", "succm", "minm", "maxm"} \/
    \A v \in Val : Bag(tree)[v] + BagOf(Given)[v] = Bag(tree')[v] + BagOf(Back)[v]

Props == /\ C01_Lookup /\ C02_Extremes /\ C03_Neighbours /\ C04_Insert /\ C05_Remove /\ C06_Pop
         /\ C07_Monad /\ C08_Write /\ C10_Len /\ C16_Owned
PropsHold == [][Props]_vars

\* ---------------------------------------------------------------- export
View == tree
\* digit string of a map: position = key rank, digit = value, 0 = absent
Digits(m) == [k \in 1..Cardinality(Key) |-> IF k \in DOMAIN m THEN m[k] ELSE 0]
Emit == PrintT("E " \o ToString(<<Digits(tree), obs', Digits(tree')>>))
=============================================================================
