SPECIFICATION MSpec
VIEW MView
INVARIANTS Refines Select CountsOk NoStuck
ACTION_CONSTRAINT Edge
CONSTANTS
  Keys = {1, 2, 3}
  MaxN = 5
  Modes = {"bottom", "top", "rand"}
