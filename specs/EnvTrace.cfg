SPECIFICATION TSpec
INVARIANT TInv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
