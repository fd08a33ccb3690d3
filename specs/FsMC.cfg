SPECIFICATION MSpec
CONSTANTS
 Faults = TRUE
VIEW MView
ACTION_CONSTRAINTS Edge
INVARIANTS SInv
PROPERTIES Safe
CHECK_DEADLOCK FALSE
