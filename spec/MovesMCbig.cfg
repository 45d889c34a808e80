CONSTANTS
  MaxLen = 5
  MaxFs = 5
SPECIFICATION Spec
INVARIANTS Once Alive Made NoLeak Reads OneSlot Shows Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
