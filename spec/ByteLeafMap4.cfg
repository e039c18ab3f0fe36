CONSTANTS W = 4
 Val = {1,2}
SPECIFICATION Spec
INVARIANTS Refines Counts Answers Ends
CHECK_DEADLOCK FALSE
