------------------------------ MODULE MCWords ------------------------------
(***************************************************************************)
(* ByteLeaf's integer words, with their shifts, population and zero        *)
(* counts, are ByteWords' sets of bits.  Constant level: every word, every *)
(* key, every pair of words of width W.                                    *)
(***************************************************************************)
EXTENDS ByteLeaf
B == INSTANCE ByteWords
Of(x) == {j \in 0..(W - 1) : Bit(x, j) = 1}
Words == 0..Ones
ASSUME ByteOk == B!Byte = Byte
ASSUME MasksOk == \A i \in Byte : /\ Of(Lower(i)[1]) = B!Lower1(i) /\ Of(Lower(i)[2]) = B!Lower2(i)
                                  /\ Of(Higher(i)[1]) = B!Higher1(i) /\ Of(Higher(i)[2]) = B!Higher2(i)
ASSUME AndOk == \A x, y \in Words : Of(And(x, y)) = Of(x) \cap Of(y)
ASSUME CountOk == \A x \in Words : Pop(x) = Cardinality(Of(x)) /\ (x = 0 <=> Of(x) = {})
ASSUME EndsOk == \A x, y \in Words : x + y > 0 => /\ B!LowestIs(Of(x), Of(y), Lowest(<<x, y>>))
                                                  /\ B!HighestIs(Of(x), Of(y), Highest(<<x, y>>))
ASSUME BitsOk == \A x, y \in Words, k \in Byte :
    /\ Has(<<x, y>>, k) <=> B!Has(Of(x), Of(y), k)
    /\ LET s == SetBit(<<x, y>>, k) IN Of(s[1]) = B!Set1(Of(x), k) /\ Of(s[2]) = B!Set2(Of(y), k)
    /\ LET s == UnsetBit(<<x, y>>, k) IN Of(s[1]) = B!Clear1(Of(x), k) /\ Of(s[2]) = B!Clear2(Of(y), k)
Start == w = <<0, 0>> /\ list = <<>> /\ m = EmptyMap
Stay == UNCHANGED lvars
=============================================================================
