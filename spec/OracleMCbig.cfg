INIT Init
NEXT Next
CONSTANTS
  Base <- Base4
  BaseBits <- Bits2
  Hi = 80
  ShHi = 8
INVARIANTS Represent Naturals Shifts Powers Decimals IntegerOps TwosComplement
CHECK_DEADLOCK FALSE
