SPECIFICATION TraceSpec
INVARIANT TraceInv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
  TokenSz = 128
  ErrSz = 512
