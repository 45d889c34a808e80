SPECIFICATION Spec
CONSTANTS NFiles = 2 MaxRefs = 1 Faults = {0, 2} Changes = TRUE Emitting = TRUE
INVARIANTS Distinct ProgressIsStack NothingInProgress NotComplete ReadOnce Kept Bounded ResultIs SharedOk Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
