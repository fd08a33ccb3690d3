SPECIFICATION MSpec
CONSTANTS
  TokenSz = 128
  MaxDepth = 16
  MaxLen = 4
  Which = 1
INVARIANTS RoundTrip Shape
VIEW MView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
