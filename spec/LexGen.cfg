SPECIFICATION Spec
VIEW Control
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE
