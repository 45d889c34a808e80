INIT Init
NEXT Next
CONSTANT W = 3
INVARIANTS Faithful ByBits HullIsSmallest MeetIsShared SplitDivides
CHECK_DEADLOCK FALSE
