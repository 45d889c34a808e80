SPECIFICATION Spec
INVARIANT Agrees
CHECK_DEADLOCK FALSE
CONSTANTS
  Begins <- AllPrefixes
  Alphabet <- CommentChars
  Bound = 6
