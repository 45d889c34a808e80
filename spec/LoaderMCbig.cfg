SPECIFICATION Spec
CONSTANTS NFiles = 3 MaxRefs = 2 Faults = {0, 3} Changes = FALSE Emitting = TRUE
INVARIANTS Distinct ProgressIsStack NothingInProgress NotComplete ReadOnce Kept Bounded ResultIs SharedOk Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
