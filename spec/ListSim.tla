------------------------------ MODULE ListSim ------------------------------
(* Long random behaviours of Lists, growing past 256 elements and shrinking again. *)
EXTENDS Lists
VARIABLE n
SimInit == Init /\ n = 1
Pick(S, i) == RandomElement(S)
Grow == (n \div 400) % 2 = 0
Where(i) == LET p == Pick(1..6, i) IN IF p = 1 THEN 0 ELSE IF p = 2 THEN Len(list) - 1 ELSE Pick(Pos, i)
SimNext ==
  /\ n' = n + 1
  /\ \E x \in {10 * (n % 100000) + Pick(1..3, n)} :
     IF ~Live THEN New(x)
     ELSE \E p \in {Pick(1..100, n)}, i \in {Where(n)}, c \in {Pick(1..12, n)} :
       IF p <= (IF Grow THEN 85 ELSE 15) /\ Len(list) < MaxLen THEN Insert(IF c = 1 THEN Len(list) ELSE i, x)
       ELSE CASE c <= 4 -> Remove(i)
              [] c = 5 -> Set(i, x)
              [] c \in {6, 7} -> RemoveKey("key", i, IF c = 6 THEN 1 ELSE 4, <<>>)
              [] c \in {8, 9} -> RemoveKey("mkey", i, IF c = 8 THEN 1 ELSE 4, <<1>>)
              [] c = 10 -> Decline(i)
              [] OTHER -> Length
EmitSim == PrintT("S " \o ToString(<<obs', list'>>))
=============================================================================
