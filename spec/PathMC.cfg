SPECIFICATION Spec
CONSTANT N = 8
INVARIANTS SamePlace Short KeepsRoot FixedPoint JoinWalks SplitJoins
CHECK_DEADLOCK FALSE
