----------------------------- MODULE TraceSpace ----------------------------
(***************************************************************************)
(* Recorded storage, to be held against the space model of VebTree.tla:    *)
(* there a tree with n entries keeps a key in at most 2*Levels*n places,   *)
(* and where it keeps them is a function of the contents alone.            *)
(*                                                                         *)
(*   <<"tree", name, levels>>        an assembly; nothing is held yet      *)
(*   <<"held", n, keys, op, i>>      after i calls (the last being op) the *)
(*          tree has n entries and so many key objects of its are alive    *)
(*   <<"grew", first, later, cap>>   most heap bytes taken in the first    *)
(*          sixteenth of a life of at most cap entries, and in the rest    *)
(*   <<"gone", keys, bytes, what>>   after dropping the tree and all it    *)
(*          handed out: key objects alive, heap bytes not given back       *)
(*                                                                         *)
(* Slack allows a node to keep its keys twice.  Heap room may depend on    *)
(* the largest contents so far (tables do not shrink), so a life is        *)
(* compared with its own beginning.                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, levels, bad
vars == <<l, levels, bad>>

Slack == 2
Room(n) == Slack * 2 * levels * n
Fits(e) == CASE e[1] = "tree" -> e[3] >= 1
             [] e[1] = "held" -> e[3] <= Room(e[2])
             [] e[1] = "grew" -> e[3] <= 5 * e[2] + 16384
             [] e[1] = "gone" -> e[2] = 0 /\ e[3] = 0
             [] OTHER -> FALSE

Init == l = 1 /\ levels = 0 /\ bad = FALSE
Next == /\ l <= Len(Trace) /\ ~bad
        /\ LET e == Trace[l] IN
           IF ~Fits(e) THEN bad' = TRUE /\ UNCHANGED <<l, levels>> /\ PrintT("DEVIATION " \o ToString(l))
           ELSE l' = l + 1 /\ bad' = FALSE /\ levels' = IF e[1] = "tree" THEN e[3] ELSE levels
Spec == Init /\ [][Next]_vars
Conforms == ~bad
Track == TLCSet(1, l')
Consumed == PrintT("CONSUMED " \o ToString(<<TLCGet(1), Len(Trace)>>)) /\ TLCGet(1) > Len(Trace)
=============================================================================
