SPECIFICATION Spec
CONSTANTS
  ExpInf <- ToyInf
  FracBits <- ToyFrac
  ExpOfOne <- ToyOne
  Hi = 40
  T = 2
  Prec = 4
INVARIANTS Bracketed EnoughBits IsNearest
PROPERTY Ends
CHECK_DEADLOCK FALSE
