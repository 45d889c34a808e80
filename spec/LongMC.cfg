SPECIFICATION Spec
CONSTANTS MaxRuns = 3 MaxN = 2
INVARIANTS Closed Loops
CHECK_DEADLOCK FALSE
