INIT CInit
NEXT CNext
INVARIANT Conforms
CHECK_DEADLOCK FALSE
