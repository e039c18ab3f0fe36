SPECIFICATION Spec
CONSTANTS
  N = 5
  Tree = {1, 2}
  None = None
INVARIANTS Inv Possible
CHECK_DEADLOCK FALSE
