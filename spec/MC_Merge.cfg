SPECIFICATION MSpec
CONSTANTS
  Vals = {0, 2, 4}
  Lens = {2, 4}
INVARIANTS Correct CountRange Parity
CHECK_DEADLOCK FALSE
