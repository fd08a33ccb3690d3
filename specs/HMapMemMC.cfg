SPECIFICATION MMSpec
PROPERTY Unaffected
VIEW MView
INVARIANTS TypeOK

ACTION_CONSTRAINT Edge
CONSTANTS
  Ks = {1, 2, 3}
  Vs = {1}
  Pcys = {"none", "fifo", "lru", "lfu", "custom"}
  MaxE = 2
  MaxC = 2
  MaxN = 3
  Two = FALSE
