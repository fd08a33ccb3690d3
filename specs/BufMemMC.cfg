SPECIFICATION MMSpec
PROPERTY Unaffected
INVARIANT OK
VIEW View
ACTION_CONSTRAINT Edge
CONSTANTS
  MaxLen = 3
  MaxF = 1
CHECK_DEADLOCK FALSE
