------------------------------- MODULE MCBulk -------------------------------
(***************************************************************************)
(* VebBulk refines VebMap: single calls are VebMap's calls, a run has the  *)
(* effect of VebMap's calls one after another.                             *)
(***************************************************************************)
EXTENDS VebBulk
CONSTANTS N, Other
Key == 1..N
Val == Key \cup {Other}
AbsOf(ps, o) == [k \in UNION {p[1]..p[2] : p \in ps} |-> IF k \in DOMAIN o THEN o[k] ELSE k]
Abs == AbsOf(parts, over)
M == INSTANCE VebMap WITH tree <- Abs

W == {0, Other}
Single == \/ \E k \in Key : Find(k) \/ Pred(k) \/ Succ(k) \/ Remove(k)
          \/ \E k \in Key, w \in W : FindMut(k, w) \/ PredMut(k, w) \/ SuccMut(k, w)
          \/ \E w \in W : MinMut(w) \/ MaxMut(w)
          \/ \E k \in Key, v \in Val : (v \in {k, Other}) /\ (FromMonad(k, v) \/ Insert(k, v))
          \/ MinVal \/ MaxVal \/ IsMonad \/ Size \/ RemoveMin \/ RemoveMax \/ IntoMonad
Runs == \E a, b \in Key : InsertRun(a, b) \/ RemoveRun(a, b) \/ PopMinRun(a, b) \/ PopMaxRun(a, b) \/ MissRun(a, b) \/ ReplaceRun(a, b)
Next == Single \/ Runs
Spec == BInit /\ [][Next]_bvars

Canonical == /\ \A p \in parts : p[1] <= p[2] /\ p[1] >= 1
             /\ \A p, q \in parts : p # q => p[2] + 1 < q[1] \/ q[2] + 1 < p[1]
             /\ \A x \in DOMAIN over : Has(x) /\ over[x] # x
RunOps == {"insrun", "remrun", "remminrun", "remmaxrun", "missrun", "replacerun"}
\* a single call is a call of VebMap with the same result
SingleRefines == [][obs' # obs /\ obs'[1] \notin RunOps => M!Next]_bvars
\* the calls of a run, one after another: <<map, all calls as the run says>>
O == INSTANCE OrdMap
Keys(a, b) == [i \in 1..(Upper(a, b) - Lower(a, b) + 1) |-> IF a <= b THEN a + i - 1 ELSE a - i + 1]
RECURSIVE Do(_, _, _, _)
Do(op, m, ks, i) ==
  IF i > Len(ks) THEN <<m, TRUE>>
  ELSE LET k == ks[i]
           ok == CASE op = "insrun" -> k \notin DOMAIN m
                   [] op = "remrun" -> k \in DOMAIN m
                   [] op = "missrun" -> k \notin DOMAIN m
                   [] op = "replacerun" -> k \in DOMAIN m
                   [] op = "remminrun" -> O!MinR(m) = <<k, k>>
                   [] op = "remmaxrun" -> O!MaxR(m) = <<k, k>>
           m2 == IF op \in {"insrun", "replacerun"} THEN O!Put(m, k, k) ELSE IF op = "missrun" THEN m ELSE O!Del(m, k)
       IN IF (~ok) \/ (DOMAIN m2 = {}) \/ (op \notin {"insrun", "missrun"} /\ m[k] # k) THEN <<m, FALSE>> ELSE Do(op, m2, ks, i + 1)
RunRefines == [][obs' # obs /\ obs'[1] \in RunOps => Do(obs'[1], Abs, Keys(obs'[2], obs'[3]), 1) = <<AbsOf(parts', over'), TRUE>>]_bvars
\* and every run the calls allow is a step
RunEnabled == Live =>
   \A a, b \in Key :
     /\ Do("insrun", Abs, Keys(a, b), 1)[2] <=> ENABLED InsertRun(a, b)
     /\ Do("remrun", Abs, Keys(a, b), 1)[2] <=> ENABLED RemoveRun(a, b)
     /\ Do("missrun", Abs, Keys(a, b), 1)[2] <=> ENABLED MissRun(a, b)
     /\ Do("replacerun", Abs, Keys(a, b), 1)[2] <=> ENABLED ReplaceRun(a, b)
     /\ a <= b => (Do("remminrun", Abs, Keys(a, b), 1)[2] <=> ENABLED PopMinRun(a, b))
     /\ a >= b => (Do("remmaxrun", Abs, Keys(a, b), 1)[2] <=> ENABLED PopMaxRun(a, b))
View == <<parts, over>>
=============================================================================
