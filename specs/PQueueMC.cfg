SPECIFICATION MSpec
VIEW MView
INVARIANTS HeapOrder Refines NoStuck
ACTION_CONSTRAINT Edge
CONSTANTS
  Keys <- KeySet
  MaxCap = 5
