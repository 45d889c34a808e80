SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
CONSTANTS
  Begins <- StatementBegins
  Alphabet <- StatementWords
  Bound = 4
