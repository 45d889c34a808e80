INIT Init
NEXT Next
CONSTANTS
  ExpInf <- ToyInf
  FracBits <- ToyFrac
  ExpOfOne <- ToyOne
  Hi = 30
  T = 1
  B = 3
INVARIANTS NearestIsNearest
CHECK_DEADLOCK FALSE
