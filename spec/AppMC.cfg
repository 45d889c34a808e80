CONSTANTS
  Inputs = {"in.json", "in.d.cjs", "sub/in.d.mjs"}
  Outputs = {"o.json", "o.d.cjs", "o.d.mjs", "o.txt", "in.json"}
  MaxArgs = 3
SPECIFICATION Spec
INVARIANTS TypeOK OkIsWritten ErrWritesNothing Once Noticed ReadBeforeWrite Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
