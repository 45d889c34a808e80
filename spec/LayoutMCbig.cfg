CONSTANTS Aligns = {1, 2, 4, 8, 16, 32, 64} MaxUnits = 5 MaxLen = 6
INIT Init
NEXT Next
INVARIANTS Good GoodLocal
CHECK_DEADLOCK FALSE
