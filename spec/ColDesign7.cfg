SPECIFICATION Spec
CONSTANTS
  N = 7
  Tree = {1, 2}
  None = None
INVARIANTS Inv Possible
CHECK_DEADLOCK FALSE
