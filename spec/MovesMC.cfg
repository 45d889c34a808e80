CONSTANTS
  MaxLen = 3
  MaxFs = 3
SPECIFICATION Spec
INVARIANTS Once Alive Made NoLeak Reads OneSlot Shows Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
