SPECIFICATION MSpec
VIEW MView
ACTION_CONSTRAINTS Small Edge
INVARIANTS SInv
PROPERTIES Confined
CHECK_DEADLOCK FALSE
