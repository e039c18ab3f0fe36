------------------------------- MODULE MCCol -------------------------------
(***************************************************************************)
(* The steps of Collection, which the real collections are driven through, *)
(* are steps of ColDesign (with its storages in the one state its proved   *)
(* invariant leaves them), and report what it reports.                     *)
(***************************************************************************)
EXTENDS Collection, SequencesExt
HiTop == Cardinality(Hi) - 1
absV == [h \in 0..HiTop |-> IF h + 1 \in DOMAIN col THEN col[h + 1] ELSE EmptyMap]
setV == {h \in 0..HiTop : h + 1 \in DOMAIN col}
listV == LET s == SortSeq(SetToSeq(setV), <) IN [i \in 1..Len(s) |-> col[s[i] + 1]]
\* <<new or vanished, anything left>> as the last call reported them
Told == LET o == obs[1] r == obs[6] IN
        CASE o = "insk" -> <<r[1] = 1, TRUE>>
          [] o = "remk" -> <<r[2] = 1, r[1] = 1>>
          [] o = "mrem" /\ r[1] = 1 -> <<r[3] = 1, r[2] = 1>>
          [] o = "create" -> <<TRUE, TRUE>>
          [] o = "getmi" -> <<FALSE, TRUE>>
          [] OTHER -> <<FALSE, FALSE>>
D == INSTANCE ColDesign WITH N <- HiTop, Tree <- Trees, None <- EmptyMap, abs <- absV, slots <- absV,
     count <- Cardinality(setV), set <- setV, list <- listV, ans <- <<Told, Told, Told>>
Acts == op \in {"create", "getmi", "insk", "remk"} \/ (op = "mrem" /\ ret[1] = 1)
Steps == [][IF Acts THEN D!Next ELSE col' = col \/ op = "drop"]_cvars
DesignInv == D!Inv
=============================================================================
