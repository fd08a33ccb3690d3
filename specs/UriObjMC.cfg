SPECIFICATION MSpec
CONSTANTS
  MaxOps = 3
INVARIANT SInv
VIEW MView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
