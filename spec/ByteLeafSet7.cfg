CONSTANTS W = 7
 Val = {1}
SPECIFICATION Spec
INVARIANTS Refines Counts Answers Ends
CHECK_DEADLOCK FALSE
