CONSTANTS
  Shapes <- Shapes0
SPECIFICATION Spec
INVARIANTS Counts Last Sole Once Judged Long Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
