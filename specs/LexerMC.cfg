SPECIFICATION MSpec
VIEW MView
INVARIANTS Bounded InOrder
PROPERTIES Forward
ACTION_CONSTRAINT Edge
CONSTANTS
  MaxLen = 3
  Chars = {97, 32, 9}
  TokenSz = 128
  ErrSz = 512
