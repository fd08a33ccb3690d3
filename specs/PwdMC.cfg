SPECIFICATION MSpec
VIEW MView
ACTION_CONSTRAINTS Edge
INVARIANTS SInv Agree
PROPERTIES Safe
CHECK_DEADLOCK FALSE
CONSTANTS
 Deep = FALSE
