------------------------------- MODULE Threads ------------------------------
(***************************************************************************)
(* Several trees used by several threads.  A tree is owned by one thread,  *)
(* which may update it, or it is frozen and may be read by all of them; it *)
(* can be handed to another thread, frozen, and taken back.  What a call   *)
(* answers depends on the contents of its own tree only.                   *)
(*                                                                         *)
(*   t    tree -> map (EmptyMap: no tree)                                  *)
(*   at   tree -> 0 no tree, -1 frozen, or the thread owning it            *)
(*   obs  <<call, thread, tree, a, b, answer>>                             *)
(*                                                                         *)
(* Calls of different threads that may be under way at the same time       *)
(* commute (Commute), so any schedule of them has the same answers: this   *)
(* is what lets the harness run them truly concurrently and still know     *)
(* every answer.                                                           *)
(***************************************************************************)
EXTENDS OrdMap
CONSTANTS Key, Val, Tree, Thread
VARIABLES t, at, obs
tvars == <<t, at, obs>>

Reads == {"find", "pred", "succ", "min", "max"}
Writes == {"ins", "rem", "remmin", "remmax", "findm"}

\* answer and effect of a call on a map that is not empty
Answer(m, op, k, v) ==
  CASE op \in {"find", "findm", "ins"} -> FindR(m, k)
    [] op = "pred" -> PredR(m, k) [] op = "succ" -> SuccR(m, k)
    [] op \in {"min", "remmin"} -> MinR(m) [] op \in {"max", "remmax"} -> MaxR(m)
    [] op = "rem" -> FindR(m, k)
Effect(m, op, k, v) ==
  CASE op = "ins" -> Put(m, k, v)
    [] op = "findm" -> Write(m, FindR(m, k), v)
    [] op = "rem" -> IF k \in DOMAIN m THEN Del(m, k) ELSE m
    [] op = "remmin" -> Del(m, MinR(m)[1])
    [] op = "remmax" -> Del(m, MaxR(m)[1])
    [] OTHER -> m

Init == t = [i \in Tree |-> EmptyMap] /\ at = [i \in Tree |-> 0] /\ obs = <<"init", 0, 0, 0, 0, <<>>>>
Say(op, p, i, a, b, r) == obs' = <<op, p, i, a, b, r>>
May(p, i, op) == at[i] = p \/ (at[i] = -1 /\ op \in Reads)
From(p, i, k, v) == /\ at[i] = 0 /\ t' = [t EXCEPT ![i] = Single(k, v)] /\ at' = [at EXCEPT ![i] = p]
                    /\ Say("from", p, i, k, v, <<>>)
Call(p, i, op, k, v) ==
  /\ May(p, i, op)
  /\ LET m == Effect(t[i], op, k, v) IN
     /\ t' = [t EXCEPT ![i] = m]
     /\ at' = [at EXCEPT ![i] = IF DOMAIN m = {} THEN 0 ELSE @]
     /\ Say(op, p, i, k, v, Answer(t[i], op, k, v))
\* ownership moves between calls
Freeze(p, i)  == at[i] = p /\ at' = [at EXCEPT ![i] = -1] /\ UNCHANGED t /\ Say("freeze", p, i, 0, 0, <<>>)
Take(p, i)    == at[i] = -1 /\ at' = [at EXCEPT ![i] = p] /\ UNCHANGED t /\ Say("take", p, i, 0, 0, <<>>)
Send(p, q, i) == p # q /\ at[i] = p /\ at' = [at EXCEPT ![i] = q] /\ UNCHANGED t /\ Say("send", p, i, q, 0, <<>>)
Drop(p, i)    == at[i] = p /\ at' = [at EXCEPT ![i] = 0] /\ t' = [t EXCEPT ![i] = EmptyMap] /\ Say("drop", p, i, 0, 0, <<>>)

Next == \E p \in Thread, i \in Tree :
          \/ \E k \in Key, v \in Val : From(p, i, k, v)
          \/ \E op \in Reads \cup Writes, k \in Key, v \in Val : Call(p, i, op, k, v)
          \/ Freeze(p, i) \/ Take(p, i) \/ Drop(p, i)
          \/ \E q \in Thread : Send(p, q, i)

TypeOK == t \in [Tree -> AllMaps(Key, Val)] /\ \A i \in Tree : (at[i] = 0) <=> (t[i] = EmptyMap)
(* C27 *)
Apart  == \A i \in Tree : i # obs'[3] => t'[i] = t[i] /\ at'[i] = at[i]
Frozen == \A i \in Tree : at[i] = -1 => t'[i] = t[i]
PropsHold == [][Apart /\ Frozen]_tvars
Commute ==
  \A p, q \in Thread, i, j \in Tree, o1, o2 \in Reads \cup Writes, k1, k2 \in Key, v \in Val :
    (p # q /\ May(p, i, o1) /\ May(q, j, o2)) =>
      LET t1 == [t EXCEPT ![i] = Effect(t[i], o1, k1, v)]
          t2 == [t EXCEPT ![j] = Effect(t[j], o2, k2, v)]
      IN /\ t1[j] # EmptyMap /\ Answer(t1[j], o2, k2, v) = Answer(t[j], o2, k2, v)
         /\ [t1 EXCEPT ![j] = Effect(t1[j], o2, k2, v)] = [t2 EXCEPT ![i] = Effect(t2[i], o1, k1, v)]
View == <<t, at>>
=============================================================================
