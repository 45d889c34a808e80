CONSTANT MaxSteps = 12
INIT Init
NEXT Next
VIEW View
INVARIANTS TypeOK JsonPlain
PROPERTIES OneFile Fixed Stays
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
