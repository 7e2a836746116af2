SPECIFICATION LSpec
CONSTANTS
  Objects = {1, 2}
  Questions = {1, 2, 3}
  MaxLen = 6
  Faults = {"touches"}
  Acts = {"change", "spoil"}
INVARIANTS Answers
VIEW LView
CHECK_DEADLOCK FALSE
