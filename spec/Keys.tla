-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* Keys, and what it means to split them.                                  *)
(*                                                                         *)
(* A key is written as a sequence of digits, most significant first; keys  *)
(* compare lexicographically.  (An unsigned integer is its digits; a       *)
(* signed one the digits of its distance from the smallest value; an array *)
(* the digits of its elements one after the other.)                        *)
(*                                                                         *)
(* Splitting cuts the sequence in two, joining concatenates.  MCKeys       *)
(* checks that no other pair of functions is inverse to each other and     *)
(* order preserving, so comparing the code with Cut and \o demands neither *)
(* more nor less than property C11; likewise that the only strictly        *)
(* increasing numbering that stays inside the number of keys is Rank (C12).*)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

Cut(D, h) == <<SubSeq(D, 1, h), SubSeq(D, h + 1, Len(D))>>

\* lexicographic comparison: -1, 0 or 1
RECURSIVE SignFrom(_, _, _)
SignFrom(a, b, i) ==
  IF i > Len(a) \/ i > Len(b) THEN IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE 0
  ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE SignFrom(a, b, i + 1)
Sign(a, b) == SignFrom(a, b, 1)
\* pairs compare first by their first part
PairSign(p, q) == IF Sign(p[1], q[1]) # 0 THEN Sign(p[1], q[1]) ELSE Sign(p[2], q[2])

\* the number a digit sequence denotes
RECURSIVE Rank(_, _)
Rank(D, base) == IF D = <<>> THEN 0 ELSE base * Rank(SubSeq(D, 1, Len(D) - 1), base) + D[Len(D)]
=============================================================================
