SPECIFICATION Spec
VIEW Control
CONSTRAINT Bound
CONSTANTS MaxDepth = 3 Pairs = TRUE
INVARIANTS TypeOK Completable Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
