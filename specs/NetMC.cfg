SPECIFICATION MSpec
CONSTANTS
 Deep = FALSE
VIEW MView
ACTION_CONSTRAINTS Edge
INVARIANTS SInv
PROPERTIES Safe
CHECK_DEADLOCK FALSE
