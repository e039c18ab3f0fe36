------------------------------ MODULE TraceMap ------------------------------
(***************************************************************************)
(* Validates runs recorded from the real code against VebMap.              *)
(*                                                                         *)
(* The trace is a sequence of calls <<op, a, b, result>>; a record         *)
(* <<"config", ...>> starts the run of another assembly.  The first line   *)
(* <<"judge", judged ops, read-out ops, queries>> says which calls the     *)
(* property under check is about.  A call whose result VebMap does not     *)
(* allow is a deviation:                                                   *)
(*   - of this property, if the call is judged, or if it is a read-out     *)
(*     directly following a judged update (it shows the update's effect);  *)
(*   - of some other property otherwise; the rest of that run says nothing *)
(*     about this one and is skipped.                                      *)
(***************************************************************************)
EXTENDS VebMap, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Elems(s) == {s[i] : i \in DOMAIN s}
JudgedOps == Elems(Trace[1][2])
ReadOps   == Elems(Trace[1][3])
Starts == {i \in 2..Len(Trace) : Trace[i][1] = "config"} \cup {Len(Trace) + 1}
NextStart(i) == CHOOSE j \in Starts : j > i /\ \A x \in Starts : x > i => j <= x

VARIABLES l,        \* next line
          upd,      \* the last updating call of this run
          bad       \* a deviation of the property under check was found
tvars == <<tree, obs, l, upd, bad>>

Updates == {"from", "ins", "rem", "remmin", "remmax", "into", "drop"}
IsUpdate(e) == e[1] \in Updates \/ (e[1] \in {"findm", "predm", "succm", "minm", "maxm"} /\ e[3] # 0)

Call(e) == LET o == e[1]  a == e[2]  b == e[3] IN
  CASE o = "from" -> FromMonad(a, b)
    [] o = "find" -> Find(a)      [] o = "findm" -> FindMut(a, b)
    [] o = "pred" -> Pred(a)      [] o = "predm" -> PredMut(a, b)
    [] o = "succ" -> Succ(a)      [] o = "succm" -> SuccMut(a, b)
    [] o = "min" -> MinVal        [] o = "minm" -> MinMut(b)
    [] o = "max" -> MaxVal        [] o = "maxm" -> MaxMut(b)
    [] o = "ismonad" -> IsMonad   [] o = "len" -> Count
    [] o = "dump" -> Dump
    [] o = "ins" -> Insert(a, b)  [] o = "rem" -> Remove(a)
    [] o = "remmin" -> RemoveMin  [] o = "remmax" -> RemoveMax
    [] o = "into" -> IntoMonad    [] o = "drop" -> DropTree

\* An iteration over the current tree, recorded as one step per element
\* <<dir, lo, hi, exact, key, value>>: the size hint before the step, then the
\* entry it yielded (key 0: none).  dir 2: only the final size hint.
RECURSIVE IterFits(_, _, _, _, _)
IterFits(s, steps, i, f, b) ==
  IF i > Len(steps) THEN TRUE
  ELSE LET x == steps[i]  left == Len(s) - f - b IN
       /\ ("size" \in JudgedOps) =>
             /\ x[2] <= left /\ (x[3] = -1 \/ x[3] >= left) /\ (x[4] = -1 \/ x[4] = left)
       /\ IF x[1] = 2 THEN IterFits(s, steps, i + 1, f, b)
          ELSE LET e == IterStep(s, f, b, x[1]) IN
               /\ ("order" \in JudgedOps) => (IF e = None THEN x[5] = 0 ELSE <<x[5], x[6]>> = e)
               /\ IterFits(s, steps, i + 1, IF e # None /\ x[1] = 0 THEN f + 1 ELSE f,
                                            IF e # None /\ x[1] = 1 THEN b + 1 ELSE b)
Iterate(e) == Live /\ Same /\ Say("iter", 0, 0, <<>>) /\ IterFits(Sorted(tree), e[4], 1, 0, 0)

\* recorded result against specified result
Flat(r) == [i \in 1..(2 * Len(r)) |-> r[(i + 1) \div 2][2 - (i % 2)]]
Allowed(e, r) ==
  CASE e[1] = "len" -> /\ e[4][1] <= r[1]                       \* lower bound
                       /\ e[4][2] = -1 \/ e[4][2] >= r[1]       \* upper bound, if any
                       /\ e[4][3] = -1 \/ e[4][3] = r[1]        \* exact count, if any
    [] e[1] = "dump" -> e[4] = Flat(r)
    [] e[1] = "drop" -> TRUE
    [] OTHER -> e[4] = r
Fits(e) == IF e[1] = "iter" THEN Iterate(e) ELSE Call(e) /\ Allowed(e, obs'[4])

Ours(e) == \/ e[1] \in JudgedOps
           \/ e[1] \in ReadOps /\ upd \in JudgedOps

TInit == Init /\ l = 2 /\ upd = "none" /\ bad = FALSE
TNext ==
  /\ l <= Len(Trace) /\ ~bad
  /\ LET e == Trace[l] IN
     IF e[1] = "config"
     THEN tree' = EmptyMap /\ obs' = <<"config", 0, 0, <<>>>> /\ upd' = "none" /\ l' = l + 1 /\ bad' = FALSE
     ELSE IF ENABLED Fits(e)
     THEN Fits(e) /\ l' = l + 1 /\ bad' = FALSE /\ upd' = IF IsUpdate(e) THEN e[1] ELSE upd
     ELSE IF Ours(e)
     THEN bad' = TRUE /\ UNCHANGED <<tree, obs, l, upd>> /\ PrintT("DEVIATION " \o ToString(<<l, tree>>))
     ELSE /\ tree' = EmptyMap /\ obs' = <<"skip", 0, 0, <<>>>> /\ upd' = "none"
          /\ l' = NextStart(l) /\ bad' = FALSE /\ PrintT("SKIP " \o ToString(l))
TSpec == TInit /\ [][TNext]_tvars
Conforms == ~bad
\* the listed properties, on the observed executions
Track == TLCSet(1, l')
Consumed == PrintT("CONSUMED " \o ToString(<<TLCGet(1), Len(Trace)>>)) /\ TLCGet(1) > Len(Trace)
TPropsHold == [][obs' # obs /\ obs'[1] \notin {"config", "skip"} => Props]_tvars
=============================================================================
