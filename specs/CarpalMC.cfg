SPECIFICATION MSpec
CONSTANTS
  PLen = 2
  Dbg = TRUE
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
