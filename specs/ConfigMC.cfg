SPECIFICATION MSpec
CONSTANTS
 MaxNodes = 3
 MaxDepth = 2
VIEW MView
ACTION_CONSTRAINTS InBounds Edge
INVARIANTS SInv
CHECK_DEADLOCK FALSE
