SPECIFICATION Spec
CONSTANTS
  ExpInf <- ToyInf
  FracBits <- ToyFrac
  ExpOfOne <- ToyOne
  Hi = 700
  T = 3
  Prec = 4
INVARIANTS Bracketed EnoughBits IsNearest
CHECK_DEADLOCK FALSE
