SPECIFICATION SSpec
CONSTANTS
 N = 3
INVARIANTS Bound Order Decided
CHECK_DEADLOCK FALSE
