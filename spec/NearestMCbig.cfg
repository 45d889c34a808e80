INIT Init
NEXT Next
CONSTANTS
  ExpInf <- ToyInf
  FracBits <- ToyFrac
  ExpOfOne <- ToyOne
  Hi = 200
  T = 1
  B = 3
INVARIANTS NearestIsNearest
CHECK_DEADLOCK FALSE
