SPECIFICATION MSpec
CONSTANTS
 Cases = 2
VIEW MView
ACTION_CONSTRAINTS Edge
INVARIANTS SInv
CHECK_DEADLOCK FALSE
