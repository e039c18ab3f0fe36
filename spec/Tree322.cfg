CONSTANTS Top <- S322
 Val = {1}
 Defect = "none"
SPECIFICATION Spec
INVARIANT Refines
INVARIANT Structure
INVARIANT Canonical
INVARIANT Cheap
INVARIANT Slim
CHECK_DEADLOCK FALSE
