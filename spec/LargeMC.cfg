SPECIFICATION Spec
CONSTANTS MinN = 4 MaxN = 7
INVARIANTS OutcomeRight Sane
CHECK_DEADLOCK FALSE
