SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
CONSTANTS
  Begins <- ValueBegins
  Alphabet <- ValueWords
  Bound = 6
