SPECIFICATION MSpec
VIEW MView
INVARIANT MInv
ACTION_CONSTRAINT Edge
CONSTANTS
  Caps = {0, 1, 2, 3, 4, 5}
  Kinds = {"malloc", "mallocc"}
