------------------------------ MODULE IntKeys -------------------------------
(***************************************************************************)
(* Integer keys as numbers: splitting divides the distance from the        *)
(* smallest key, joining multiplies and adds, the slot is the distance.    *)
(* SJoin is the code's joining of signed keys: the unsigned result is read *)
(* as a signed word, and the smallest key added with wrap-around.          *)
(* MCKeys shows with TLC that on digit sequences this is Keys' Cut and     *)
(* Rank; IntProof proves the laws of C11 and C12 for every width.          *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS H, L,    \* how many high and low parts there are
          Min      \* the smallest key
Dom == Min..(Min + H * L - 1)
His == 0..(H - 1)
Los == 0..(L - 1)
Hi(k) == (k - Min) \div L
Lo(k) == (k - Min) % L
Join(h, l) == h * L + l + Min
Slot(k) == k - Min
\* a word of 2 * M values, read as signed
Wrap(x, M) == ((x + M) % (2 * M)) - M
SJoin(h, l, M) == Wrap(Wrap(h * L + l, M) - M, M)
=============================================================================
