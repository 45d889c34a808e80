CONSTANTS
  Inputs = 2
  Length = 3
SPECIFICATION Spec
INVARIANTS Function Judged Refused Stable Emit
PROPERTY Keeps
CHECK_DEADLOCK FALSE
