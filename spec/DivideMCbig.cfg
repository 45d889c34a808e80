SPECIFICATION Spec
CONSTANTS
  Bases = {2, 3, 4, 8, 16}
  Hi = 1100
INVARIANTS Exact Digit NotNegative Ended Fast
CHECK_DEADLOCK FALSE
