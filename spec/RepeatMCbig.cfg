CONSTANTS
  Inputs = 3
  Length = 4
SPECIFICATION Spec
INVARIANTS Function Judged Refused Stable Emit
PROPERTY Keeps
CHECK_DEADLOCK FALSE
