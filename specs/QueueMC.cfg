SPECIFICATION MSpec
VIEW MView
INVARIANT MInv
PROPERTY Order
ACTION_CONSTRAINT Edge
CONSTANTS
  E = {1, 2, 3, 4}
  Kinds = {"list", "tailq", "circleq"}
