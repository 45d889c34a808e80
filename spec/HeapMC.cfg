CONSTANTS NSlots = 2 NObjs = 2 Kinds = {"str","arr","obj","fix","vec","big"} MaxLen = 2 Every = 1 Looks = TRUE
INIT Init
NEXT Next
VIEW View
INVARIANTS NeverFreedInUse FreedWhenUnused CounterIsHandles MutIsOnly SlotsAreTyped Acyclic
CHECK_DEADLOCK FALSE
