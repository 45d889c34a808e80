SPECIFICATION Spec
CONSTANT MaxN = 12
INVARIANTS Acyclic FactsRight FlatRight
CHECK_DEADLOCK FALSE
