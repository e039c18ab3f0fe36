------------------------------ MODULE VebClone ------------------------------
(***************************************************************************)
(* Several handles on trees, with cloning.  Each handle owns its own map:  *)
(* cloning copies the map into another handle (a new one, or one whose     *)
(* tree is replaced), and every other call changes the map of its handle   *)
(* only.                                                                   *)
(***************************************************************************)
EXTENDS OrdMap
CONSTANTS Key, Val, Handle
VARIABLES t, obs          \* t: handle -> map, EmptyMap = no tree
cvars == <<t, obs>>

Live(i) == DOMAIN t[i] # {}
Set(i, m) == t' = [t EXCEPT ![i] = m]
Say(op, i, a, b, r) == obs' = <<op, i, a, b, r>>
Remains(m) == Flag(DOMAIN m # {})
Init == t = [i \in Handle |-> EmptyMap] /\ obs = <<"init", 0, 0, 0, <<>>>>
NoTree == \A i \in Handle : ~Live(i)

From(i, k, v)   == ~Live(i) /\ Set(i, Single(k, v)) /\ Say("from", i, k, v, <<>>)
Insert(i, k, v) == Live(i) /\ Set(i, Put(t[i], k, v)) /\ Say("ins", i, k, v, FindR(t[i], k))
Remove(i, k) == /\ Live(i)
                /\ IF k \in DOMAIN t[i]
                   THEN Set(i, Del(t[i], k)) /\ Say("rem", i, k, 0, <<1, Remains(Del(t[i], k))>> \o Kv(t[i], k))
                   ELSE UNCHANGED t /\ Say("rem", i, k, 0, <<0>>)
Pop(i, op, e) == Set(i, Del(t[i], e[1])) /\ Say(op, i, 0, 0, <<Remains(Del(t[i], e[1]))>> \o e)
RemoveMin(i) == Live(i) /\ Pop(i, "remmin", MinR(t[i]))
RemoveMax(i) == Live(i) /\ Pop(i, "remmax", MaxR(t[i]))
Write1(i, op, k, w, e) == Live(i) /\ Set(i, Write(t[i], e, w)) /\ Say(op, i, k, w, e)
FindMut(i, k, w) == Write1(i, "findm", k, w, FindR(t[i], k))
PredMut(i, k, w) == Write1(i, "predm", k, w, PredR(t[i], k))
SuccMut(i, k, w) == Write1(i, "succm", k, w, SuccR(t[i], k))
MinMut(i, w) == Live(i) /\ Write1(i, "minm", 0, w, MinR(t[i]))
MaxMut(i, w) == Live(i) /\ Write1(i, "maxm", 0, w, MaxR(t[i]))
\* clone handle i into handle j, replacing what j held
Clone(i, j) == i # j /\ Live(i) /\ Set(j, t[i]) /\ Say("clone", i, j, Flag(Live(j)), <<>>)
Drop(i) == Live(i) /\ Set(i, EmptyMap) /\ Say("drop", i, 0, 0, <<>>)

\* only the first handle starts afresh; the others arise by cloning
Next == \/ \E k \in Key, v \in Val : NoTree /\ From(1, k, v)
        \/ \E i \in Handle : \/ \E k \in Key, v \in Val : Insert(i, k, v) \/ FindMut(i, k, v) \/ PredMut(i, k, v) \/ SuccMut(i, k, v)
                             \/ \E k \in Key : Remove(i, k)
                             \/ \E v \in Val : MinMut(i, v) \/ MaxMut(i, v)
                             \/ RemoveMin(i) \/ RemoveMax(i) \/ Drop(i)
        \/ \E i, j \in Handle : Clone(i, j)
TypeOK == t \in [Handle -> AllMaps(Key, Val)]
(* C17: a clone equals its original; every call leaves all other handles alone *)
C17_Equal == obs'[1] = "clone" => t'[obs'[3]] = t[obs'[2]] /\ t'[obs'[2]] = t[obs'[2]]
C17_Apart == \A i \in Handle : i # (IF obs'[1] = "clone" THEN obs'[3] ELSE obs'[2]) => t'[i] = t[i]
PropsHold == [][C17_Equal /\ C17_Apart]_cvars

View == t
Digits(m) == [k \in 1..Cardinality(Key) |-> IF k \in DOMAIN m THEN m[k] ELSE 0]
All(x) == [i \in 1..Cardinality(Handle) |-> Digits(x[i])]
Emit == PrintT("K " \o ToString(<<All(t), obs', All(t')>>))
=============================================================================
