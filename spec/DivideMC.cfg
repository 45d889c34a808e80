SPECIFICATION Spec
CONSTANTS
  Bases = {2, 3, 4, 8}
  Hi = 260
INVARIANTS Exact Digit NotNegative Ended Fast
CHECK_DEADLOCK FALSE
