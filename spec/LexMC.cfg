SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
CONSTANTS
  Begins <- AllPrefixes
  Alphabet <- AllChars
  Bound = 3
