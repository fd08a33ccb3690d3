SPECIFICATION MMSpec
PROPERTY Unaffected
INVARIANTS OK TrimIdem
PROPERTY Independent
VIEW View
ACTION_CONSTRAINT Edge
CONSTANTS
  MaxLen = 2
  Fmts = {"s", "pad", "bad"}
CHECK_DEADLOCK FALSE
