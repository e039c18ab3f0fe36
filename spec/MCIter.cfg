CONSTANTS Max = 12
 Defect = "none"
SPECIFICATION Spec
INVARIANT IterInv
PROPERTY IterSpec
CHECK_DEADLOCK FALSE
