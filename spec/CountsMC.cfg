CONSTANTS MaxRefs = 9
 MaxFans = 3
 Steps = {1, 2, 5}
INIT Init
NEXT Next
INVARIANTS CounterRight FreedOnce MutableRight
CHECK_DEADLOCK FALSE
