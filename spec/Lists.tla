------------------------------- MODULE Lists -------------------------------
(***************************************************************************)
(* The positional lists behind byte maps (List, TreeList) as a state       *)
(* machine over a sequence.  An element is 10 * v + c: as a value simply   *)
(* that number; as a subtree, the ordered map {1 -> v, .., c -> v}.        *)
(* There is no empty list: removing the last element ends it.              *)
(* Removers: 1 take the largest entry   4 take it and give no tree back    *)
(*           6 decline (conditional removal only)                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxLen, V, C
VARIABLES list, obs
lvars == <<list, obs>>
Elem == {10 * v + c : v \in V, c \in C}
Live == list # <<>>
Same == UNCHANGED list
Flag(b) == IF b THEN 1 ELSE 0
Say(op, i, x, r) == obs' = <<op, i, x, r>>
Pos == 0..(Len(list) - 1)
At(i) == list[i + 1]
Cut(i) == SubSeq(list, 1, i) \o SubSeq(list, i + 2, Len(list))
Put(i, x) == SubSeq(list, 1, i) \o <<x>> \o SubSeq(list, i + 1, Len(list))

Init == list = <<>> /\ obs = <<"init", 0, 0, <<>>>>
New(x) == ~Live /\ list' = <<x>> /\ Say("new", 0, x, <<>>)
Length == Live /\ Same /\ Say("len", 0, 0, <<Len(list)>>)
IsEmpty == Live /\ Same /\ Say("empty", 0, 0, <<0>>)
Get(i) == Live /\ i \in Pos /\ Same /\ Say("get", i, 0, <<At(i)>>)
\* replace the element through the mutable access
Set(i, x) == Live /\ i \in Pos /\ list' = [list EXCEPT ![i + 1] = x] /\ Say("set", i, x, <<At(i)>>)
Insert(i, x) == Live /\ i \in 0..Len(list) /\ Len(list) < MaxLen /\ list' = Put(i, x) /\ Say("ins", i, x, <<>>)
\* <<list remains?, element>>
Remove(i) == Live /\ i \in Pos /\ list' = Cut(i) /\ Say("rem", i, 0, <<Flag(Len(list) > 1), At(i)>>)

\* <<list remains?, subtree vanished?, key, value, the subtree the remover was given>>
Taken(i, gone) == <<Flag(~gone \/ Len(list) > 1), Flag(gone), At(i) % 10, At(i) \div 10, At(i)>>
RemoveKey(op, i, how, pre) ==
    /\ Live /\ i \in Pos
    /\ LET gone == how = 4 \/ At(i) % 10 = 1 IN
         /\ list' = IF gone THEN Cut(i) ELSE [list EXCEPT ![i + 1] = @ - 1]
         /\ Say(op, i, how, pre \o Taken(i, gone))
Decline(i) == Live /\ i \in Pos /\ Same /\ Say("mkey", i, 6, <<0, At(i)>>)
Drop == Live /\ list' = <<>> /\ Say("drop", 0, 0, <<>>)

Next == \/ \E x \in Elem : New(x)
        \/ Length \/ IsEmpty \/ Drop
        \/ \E i \in 0..MaxLen : Get(i) \/ Remove(i) \/ Decline(i)
        \/ \E i \in 0..MaxLen, x \in Elem : Set(i, x) \/ Insert(i, x)
        \/ \E i \in 0..MaxLen, how \in {1, 4} : RemoveKey("key", i, how, <<>>) \/ RemoveKey("mkey", i, how, <<1>>)

\* the properties, independently: what a call does to positions
op == obs'[1]  pos == obs'[2]  arg == obs'[3]  ret == obs'[4]
Kept(f) == \A j \in DOMAIN list : f[j] # 0 => list'[f[j]] = list[j]
Shift == [j \in DOMAIN list |-> CASE op = "ins" -> IF j > pos THEN j + 1 ELSE j
                                  [] Len(list') < Len(list) -> IF j = pos + 1 THEN 0 ELSE IF j > pos THEN j - 1 ELSE j
                                  [] op \in {"set", "key", "mkey"} -> IF j = pos + 1 THEN 0 ELSE j
                                  [] OTHER -> j]
Lists == /\ op \notin {"new", "drop"} => Kept(Shift)
         /\ op = "ins" => list'[pos + 1] = arg /\ Len(list') = Len(list) + 1
         /\ op = "rem" => ret[2] = list[pos + 1] /\ (ret[1] = 0 <=> list' = <<>>)
         /\ op = "mkey" /\ arg = 6 => list' = list
ListsHold == [][Lists]_lvars

View == list
Emit == PrintT("L " \o ToString(<<list, obs', list'>>))
=============================================================================
