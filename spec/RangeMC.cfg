SPECIFICATION Spec
CONSTANTS N = 3
          V = 2
INVARIANTS AlwaysSorted PrefixRight Right NeverSilent ConflictAtKeys
PROPERTY Ends
CHECK_DEADLOCK FALSE
