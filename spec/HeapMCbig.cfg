CONSTANTS NSlots = 3 NObjs = 3 Kinds = {"str","arr","obj"} MaxLen = 2 Every = 128 Looks = FALSE
INIT Init
NEXT Next
VIEW View
INVARIANTS NeverFreedInUse FreedWhenUnused CounterIsHandles MutIsOnly SlotsAreTyped Acyclic
CHECK_DEADLOCK FALSE
