CONSTANTS NSlots = 2 NObjs = 3 Kinds = {"str","arr","obj"} MaxLen = 1 Every = 1 Looks = TRUE
INIT Init
NEXT Next
VIEW View
INVARIANTS NeverFreedInUse FreedWhenUnused CounterIsHandles MutIsOnly SlotsAreTyped Acyclic
CHECK_DEADLOCK FALSE
