SPECIFICATION MSpec
CONSTANTS
  Which = 1
  PMax = 3
  TMax = 3
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
