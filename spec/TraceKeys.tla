----------------------------- MODULE TraceKeys -----------------------------
(***************************************************************************)
(* Facts recorded from the real key types, checked against Keys.           *)
(*                                                                         *)
(*  <<"type", name, base, digits, slots>>   the facts that follow are about*)
(*        this type; slots: declared number of slots, as digits with one   *)
(*        extra leading digit (<<>>: not usable as a slot index)           *)
(*  <<"key", D, H, L, Hr, Lr, Js, H2, L2>>                                 *)
(*        the key D splits into H, L by value and Hr, Lr by reference;     *)
(*        Js: the keys joined from parts made independently of the split   *)
(*        (borrowed/owned in every combination); H2, L2: the split of a    *)
(*        joined key                                                       *)
(*  <<"cmp", D, E, s, t>>  comparing D with E gave s, comparing their      *)
(*        (high, low) pairs gave t                                         *)
(*  <<"slot", D, S, E, R>> the slot of D is S and that of E is R (digits   *)
(*        with one extra leading digit)                                    *)
(*  <<"small", bits, op, a, b, r>>  an operation of the 2- or 4-bit        *)
(*        integers gave r                                                  *)
(***************************************************************************)
EXTENDS Keys, TLC, Json, IOUtils

Facts == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, type, bad
vars == <<l, type, bad>>

Legal(D) == \A i \in DOMAIN D : D[i] \in 0..(type[2] - 1)
IsKey(D) == Len(D) = type[3] /\ Legal(D)
KeyFact(f) ==
  LET h == Len(f[3]) IN
  /\ IsKey(f[2])
  /\ <<f[3], f[4]>> = Cut(f[2], h)
  /\ <<f[5], f[6]>> = <<f[3], f[4]>>
  /\ \A i \in DOMAIN f[7] : f[7][i] = f[3] \o f[4]
  /\ <<f[8], f[9]>> = <<f[3], f[4]>>
CmpFact(f) == f[4] = Sign(f[2], f[3]) /\ f[5] = f[4]
\* a slot lies in the declared range; slots compare as keys do
SlotFact(f) ==
  /\ Len(f[3]) = Len(type[4]) /\ Sign(f[3], type[4]) = -1
  /\ Len(f[5]) = Len(type[4]) /\ Sign(f[5], type[4]) = -1
  /\ Sign(f[3], f[5]) = Sign(f[2], f[4])

\* the small integers: values of `bits` bits, everything beyond cut off
Bit(n, i) == (n \div (2 ^ i)) % 2
RECURSIVE Or(_, _)
Or(a, b) == IF a = 0 /\ b = 0 THEN 0 ELSE 2 * Or(a \div 2, b \div 2) + (IF (a % 2) + (b % 2) > 0 THEN 1 ELSE 0)
Small(bits, op, a, b) ==
  LET m == 2 ^ bits IN
  CASE op = "from" -> a % m                    \* from a byte (or a wider small integer)
    [] op = "into" -> a                        \* to a byte (or a wider small integer)
    [] op = "or"   -> Or(a, b) % m
    [] op = "shl"  -> (a * 2 ^ b) % m
    [] op = "shr"  -> a \div (2 ^ b)
    [] op = "low"  -> a % 2                    \* to a truth value
    [] op = "cmp"  -> IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1
    [] op = "max"  -> m - 1
    [] op = "bits" -> bits
SmallFact(f) == f[6] = Small(f[2], f[3], f[4], f[5])

Holds(f) == CASE f[1] = "key" -> KeyFact(f) [] f[1] = "cmp" -> CmpFact(f)
              [] f[1] = "slot" -> SlotFact(f) [] f[1] = "small" -> SmallFact(f)

Init == l = 1 /\ type = <<>> /\ bad = FALSE
Next ==
  /\ l <= Len(Facts) /\ ~bad
  /\ LET f == Facts[l] IN
     IF f[1] = "type" THEN type' = Tail(f) /\ l' = l + 1 /\ bad' = FALSE
     ELSE IF Holds(f) THEN l' = l + 1 /\ UNCHANGED <<type, bad>>
     ELSE bad' = TRUE /\ UNCHANGED <<l, type>> /\ PrintT("DEVIATION " \o ToString(l))
Spec == Init /\ [][Next]_vars
Conforms == ~bad
Track == TLCSet(1, l')
Consumed == PrintT("CONSUMED " \o ToString(<<TLCGet(1), Len(Facts)>>)) /\ TLCGet(1) > Len(Facts)
=============================================================================
