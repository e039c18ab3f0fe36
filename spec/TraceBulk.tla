------------------------------ MODULE TraceBulk -----------------------------
(***************************************************************************)
(* Validates recorded runs with very large contents against VebBulk; lines *)
(* are judged as in TraceMap.  Runs of calls are one line                  *)
(* <<op "run", first, last, <<>>>>.  An iteration is recorded as stretches  *)
(*   <<dir, count, key, lo, hi, exact, dlo, dhi, dexact>>:                 *)
(* count steps from the front (0) or back (1), yielding the consecutive    *)
(* keys from `key` on with their default values; before the first of them  *)
(* the size hint was lo, hi, exact (-1: none), and from step to step it    *)
(* fell by dlo, dhi, dexact.  A stretch of one step may also yield another *)
(* value, given last, or nothing (key 0).                                  *)
(***************************************************************************)
EXTENDS VebBulk, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Elems(s) == {s[i] : i \in DOMAIN s}
JudgedOps == Elems(Trace[1][2])
ReadOps   == Elems(Trace[1][3])
Starts == {i \in 2..Len(Trace) : Trace[i][1] = "config"} \cup {Len(Trace) + 1}
NextStart(i) == CHOOSE j \in Starts : j > i /\ \A x \in Starts : x > i => j <= x

VARIABLES l, upd, bad
tvars == <<parts, over, obs, l, upd, bad>>

Base == [insrun |-> "ins", remrun |-> "rem", remminrun |-> "remmin", remmaxrun |-> "remmax",
         missrun |-> "rem", replacerun |-> "ins"]
Name(e) == IF e[1] \in DOMAIN Base THEN Base[e[1]] ELSE e[1]
Updates == {"from", "ins", "rem", "remmin", "remmax", "into"}
IsUpdate(e) == Name(e) \in Updates \/ (e[1] \in {"findm", "predm", "succm", "minm", "maxm"} /\ e[3] # 0)

Call(e) == LET o == e[1]  a == e[2]  b == e[3] IN
  CASE o = "from" -> FromMonad(a, b)
    [] o = "find" -> Find(a)      [] o = "findm" -> FindMut(a, b)
    [] o = "pred" -> Pred(a)      [] o = "predm" -> PredMut(a, b)
    [] o = "succ" -> Succ(a)      [] o = "succm" -> SuccMut(a, b)
    [] o = "min" -> MinVal        [] o = "minm" -> MinMut(b)
    [] o = "max" -> MaxVal        [] o = "maxm" -> MaxMut(b)
    [] o = "ismonad" -> IsMonad   [] o = "len" -> Size
    [] o = "ins" -> Insert(a, b)  [] o = "rem" -> Remove(a)
    [] o = "remmin" -> RemoveMin  [] o = "remmax" -> RemoveMax
    [] o = "into" -> IntoMonad
    [] o = "insrun" -> InsertRun(a, b)        [] o = "remrun" -> RemoveRun(a, b)
    [] o = "remminrun" -> PopMinRun(a, b)     [] o = "remmaxrun" -> PopMaxRun(a, b)
    [] o = "missrun" -> MissRun(a, b)         [] o = "replacerun" -> ReplaceRun(a, b)

\* what is left to iterate: the keys strictly between f and b
LeftParts(f, b) == {p \in {<<IF p[1] > f THEN p[1] ELSE f + 1, IF p[2] < b THEN p[2] ELSE b - 1>> : p \in parts} : p[1] <= p[2]}
HintFits(lo, hi, exact, left) == lo <= left /\ (hi = -1 \/ hi >= left) /\ (exact = -1 \/ exact = left)
At(x, d, n) == IF x = -1 THEN -1 ELSE x - d * n
RECURSIVE IterFits(_, _, _, _)
IterFits(s, i, f, b) ==
  IF i > Len(s) THEN TRUE ELSE
  LET x == s[i]  left == LeftParts(f, b)  n == Count(left)  c == x[2] IN
  /\ ("size" \in JudgedOps) =>
       /\ HintFits(x[4], x[5], x[6], n)
       /\ HintFits(At(x[4], x[7], c - 1), At(x[5], x[8], c - 1), At(x[6], x[9], c - 1), IF n = 0 THEN 0 ELSE n - (c - 1))
  /\ IF x[1] = 2 THEN IterFits(s, i + 1, f, b)          \* only a size hint
     ELSE IF left = {} THEN /\ ("order" \in JudgedOps) => x[3] = 0
                            /\ IterFits(s, i + 1, f, b)
     ELSE LET k == IF x[1] = 0 THEN Least({p[1] : p \in left}) ELSE Largest({p[2] : p \in left})
              p == CHOOSE p \in left : p[1] <= k /\ k <= p[2]
              whole == p[2] - p[1] + 1 >= c
              plain == IF x[1] = 0 THEN Plain(k, k + c - 1) ELSE Plain(k - c + 1, k)
          IN IF c = 1 THEN /\ ("order" \in JudgedOps) => <<x[3], x[10]>> = E(k)
                           /\ IterFits(s, i + 1, IF x[1] = 0 THEN k ELSE f, IF x[1] = 1 THEN k ELSE b)
             ELSE /\ ("order" \in JudgedOps) => x[3] = k /\ whole /\ plain
                  /\ whole => IterFits(s, i + 1, IF x[1] = 0 THEN k + c - 1 ELSE f, IF x[1] = 1 THEN k - c + 1 ELSE b)
Iterate(e) == Live /\ Same /\ Say("iter", 0, 0, <<>>) /\ IterFits(e[4], 1, MinKey - 1, MaxKey + 1)

Allowed(e, r) ==
  CASE e[1] = "len" -> HintFits(e[4][1], e[4][2], e[4][3], r[1])
    [] OTHER -> e[4] = r
Fits(e) == IF e[1] = "iter" THEN Iterate(e) ELSE Call(e) /\ Allowed(e, obs'[4])

Ours(e) == \/ Name(e) \in JudgedOps
           \/ e[1] \in ReadOps /\ upd \in JudgedOps

TInit == BInit /\ l = 2 /\ upd = "none" /\ bad = FALSE
TNext ==
  /\ l <= Len(Trace) /\ ~bad
  /\ LET e == Trace[l] IN
     IF e[1] = "config"
     THEN parts' = {} /\ over' = NoOver /\ obs' = <<"config", 0, 0, <<>>>> /\ upd' = "none" /\ l' = l + 1 /\ bad' = FALSE
     ELSE IF ENABLED Fits(e)
     THEN Fits(e) /\ l' = l + 1 /\ bad' = FALSE /\ upd' = IF IsUpdate(e) THEN Name(e) ELSE upd
     ELSE IF Ours(e)
     THEN bad' = TRUE /\ UNCHANGED <<parts, over, obs, l, upd>> /\ PrintT("DEVIATION " \o ToString(<<l, parts, over>>))
     ELSE /\ parts' = {} /\ over' = NoOver /\ obs' = <<"skip", 0, 0, <<>>>> /\ upd' = "none"
          /\ l' = NextStart(l) /\ bad' = FALSE /\ PrintT("SKIP " \o ToString(l))
TSpec == TInit /\ [][TNext]_tvars
Conforms == ~bad
Track == TLCSet(1, l')
Consumed == PrintT("CONSUMED " \o ToString(<<TLCGet(1), Len(Trace)>>)) /\ TLCGet(1) > Len(Trace)
=============================================================================
