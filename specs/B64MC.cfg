SPECIFICATION MSpec
CONSTANTS
  MaxLen = 4
  Which = 1
INVARIANTS Laws Emit
VIEW MView
CHECK_DEADLOCK FALSE
