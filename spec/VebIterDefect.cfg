CONSTANTS Max = 5
 Defect = "no-meet"
SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT EmitI
INVARIANT C09_Disjoint
INVARIANT C18_NeverMissing
INVARIANT C10_Hint
PROPERTY C09_Refines
PROPERTY C09_Fused
CHECK_DEADLOCK FALSE
