SPECIFICATION MSpec
CONSTANTS
  TokenSz = 128
  MaxDepth = 16
  MaxNode = 3
  Types = {"o", "a", "s"}
INVARIANTS TypeOK EncDec Names1
PROPERTIES Frozen Removal
VIEW MView
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
