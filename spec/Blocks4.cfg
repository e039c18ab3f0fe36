CONSTANTS K = 4
 Val = {1, 2}
 MaxSize = 3
INIT Init
NEXT Next
INVARIANT Lemma
CHECK_DEADLOCK FALSE
