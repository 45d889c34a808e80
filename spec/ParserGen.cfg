SPECIFICATION Spec
VIEW Control
CONSTRAINT Bound
CONSTANTS MaxDepth = 2 Pairs = FALSE
INVARIANTS TypeOK Completable Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
