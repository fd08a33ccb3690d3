SPECIFICATION MSpec
VIEW MView
ACTION_CONSTRAINTS Edge
INVARIANTS SInv
PROPERTIES Once
CHECK_DEADLOCK FALSE
