SPECIFICATION MSpec
CONSTANTS
  Which = 1
  MaxOps = 3
VIEW View
PROPERTIES Progress Grow
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
