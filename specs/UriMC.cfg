SPECIFICATION MSpec
CONSTANTS
  MaxLen = 4
  Which = 1
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
