SPECIFICATION Spec
CONSTANTS MinN = 4 MaxN = 12
INVARIANTS OutcomeRight Sane
CHECK_DEADLOCK FALSE
