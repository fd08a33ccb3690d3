SPECIFICATION MSpec
VIEW MView
INVARIANT MInv
PROPERTY OneStep
ACTION_CONSTRAINT Edge
CONSTANTS
  Ptrs = {1, 2, 3}
  MaxLen = 3
