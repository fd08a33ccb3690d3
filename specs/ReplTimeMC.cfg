SPECIFICATION MSpec
CONSTANTS
  Before = 136000
  To = 200000
  Chunk = 4000
INVARIANT Laws
CHECK_DEADLOCK FALSE
