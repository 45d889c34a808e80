CONSTANTS Aligns = {1, 2, 4, 8, 16} MaxUnits = 3 MaxLen = 3
INIT Init
NEXT Next
INVARIANTS Good GoodLocal
CHECK_DEADLOCK FALSE
