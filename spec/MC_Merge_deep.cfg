SPECIFICATION MSpec
CONSTANTS
  Vals = {0, 2, 4, 6}
  Lens = {2, 4, 6}
INVARIANTS Correct CountRange Parity
CHECK_DEADLOCK FALSE
