SPECIFICATION Spec
CONSTANTS
  Top <- S23
  Val = {1, 2}
  Defect = "none"
  NoVal = NoVal
INVARIANTS NodeInv NodeQueries NodeHolds
PROPERTIES NodeSpec
CHECK_DEADLOCK FALSE
