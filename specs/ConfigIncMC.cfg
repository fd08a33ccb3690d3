SPECIFICATION MSpec
CONSTANTS
 MaxFault = 3
 Depth3 = FALSE
INVARIANTS Balanced Emit
CHECK_DEADLOCK FALSE
