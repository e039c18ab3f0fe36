------------------------------ MODULE Handles ------------------------------
(***************************************************************************)
(* Key handles (MaybeBorrowed): how keys travel through joins, queries and *)
(* hash lookups.  A handle owns a key or refers to a key of the caller; it *)
(* means the same key either way.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Val, MaxH
VARIABLES hs,   \* handles: <<"own" or "ref", key>>
          obs   \* <<operation, handle, argument, result, keys cloned>>
hvars == <<hs, obs>>
Handle == {"own", "ref"} \X Val
H == 1..Len(hs)
Cut(i) == SubSeq(hs, 1, i - 1) \o SubSeq(hs, i + 1, Len(hs))
Say(op, i, x, r, c) == obs' = <<op, i, x, r, c>>
Add(h) == Len(hs) < MaxH /\ hs' = Append(hs, h)
Same == UNCHANGED hs

Init == hs = <<>> /\ obs = <<"init", 0, 0, <<>>, 0>>
Own(v) == Add(<<"own", v>>) /\ Say("own", 0, v, <<>>, 0)        \* From<key>
Lend(v) == Add(<<"ref", v>>) /\ Say("lend", 0, v, <<>>, 0)      \* From<&key>
Relend(i) == Add(<<"ref", hs[i][2]>>) /\ Say("relend", i, 0, <<>>, 0)  \* borrow()
Copy(i) == Add(hs[i]) /\ Say("copy", i, 0, <<>>, IF hs[i][1] = "own" THEN 1 ELSE 0)
\* into_or_clone: the key, cloned only if it is not the handle's own
Into(i) == hs' = Cut(i) /\ Say("into", i, 0, <<hs[i][2]>>, IF hs[i][1] = "own" THEN 0 ELSE 1)
Read(i) == Same /\ Say("read", i, 0, <<hs[i][2]>>, 0)           \* deref, Borrow
Kind(i) == Same /\ Say("kind", i, 0, <<IF hs[i][1] = "own" THEN 1 ELSE 0>>, 0)
Equal(i, j) == Same /\ Say("equal", i, j, <<IF hs[i][2] = hs[j][2] THEN 1 ELSE 0>>, 0)
Drop(i) == hs' = Cut(i) /\ Say("drop", i, 0, <<>>, 0)

Next == \/ \E v \in Val : Own(v) \/ Lend(v)
        \/ \E i \in H : Relend(i) \/ Copy(i) \/ Into(i) \/ Read(i) \/ Kind(i) \/ Drop(i)
        \/ \E i, j \in H : Equal(i, j)
\* what a handle means does not depend on whether it owns
Meaning(s) == [i \in DOMAIN s |-> s[i][2]]
Lent(s) == [i \in DOMAIN s |-> <<"ref", s[i][2]>>]
Observations(s, i, j) == <<s[i][2], s[i][2] = s[j][2]>>
KindIrrelevant == \A i, j \in H : Observations(hs, i, j) = Observations(Lent(hs), i, j)
TypeOK == \A i \in H : hs[i] \in Handle
\* an owned key leaves its handle without a clone; a lent key is never moved out of its owner
Moves == obs'[1] = "into" => (obs'[5] = 0 <=> hs[obs'[2]][1] = "own") /\ obs'[4] = <<Meaning(hs)[obs'[2]]>>
MovesHold == [][Moves]_hvars
View == hs
Emit == PrintT("H " \o ToString(<<hs, obs', hs'>>))
=============================================================================
