CONSTANTS Top <- S23
 Val = {1}
 Defect = "swapped-max"
SPECIFICATION Spec
INVARIANT Refines
INVARIANT Structure
INVARIANT Canonical
INVARIANT Cheap
CHECK_DEADLOCK FALSE
