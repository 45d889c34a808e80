SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
CONSTANTS
  Begins <- StringPrefixes
  Alphabet <- StringChars
  Bound = 4
