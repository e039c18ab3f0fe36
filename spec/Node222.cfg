SPECIFICATION Spec
CONSTANTS
  Top <- S222
  Val = {1}
  Defect = "none"
  NoVal = NoVal
INVARIANTS NodeInv NodeQueries NodeHolds
PROPERTIES NodeSpec
CHECK_DEADLOCK FALSE
