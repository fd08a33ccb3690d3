SPECIFICATION MMSpec
PROPERTY Unaffected
VIEW MView
INVARIANT MInv
PROPERTY Frame
ACTION_CONSTRAINT Edge
CONSTANTS
  Types = {"int", "ptr"}
  Idx <- IdxSet
  Vals = {1, 255}
  Sizes = {1, 2}
