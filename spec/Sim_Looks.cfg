SPECIFICATION LSpec
CONSTANTS
  Objects = {1, 2, 3, 4}
  Questions = {1, 2, 3, 4, 5, 6, 7, 8}
  MaxLen = 24
  Faults = {}
  Acts = {"change", "spoil", "end"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
