SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
CONSTANTS
  Begins <- AllPrefixes
  Alphabet <- NumberChars
  Bound = 6
