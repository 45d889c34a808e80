CONSTANTS E = 2
          P = 2
INIT Init
NEXT Next
INVARIANTS OwnKind ComesBack NoClash OneKind KeepNaN
CHECK_DEADLOCK FALSE
