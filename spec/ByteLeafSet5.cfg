CONSTANTS W = 5
 Val = {1}
SPECIFICATION Spec
INVARIANTS Refines Counts Answers Ends
CHECK_DEADLOCK FALSE
