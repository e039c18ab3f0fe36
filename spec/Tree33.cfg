CONSTANTS Top <- S33
 Val = {1,2}
 Defect = "none"
SPECIFICATION Spec
INVARIANT Refines
INVARIANT Structure
INVARIANT Canonical
INVARIANT Cheap
INVARIANT Slim
CHECK_DEADLOCK FALSE
