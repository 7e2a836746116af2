SPECIFICATION LSpec
CONSTANTS
  Objects = {1, 2}
  Questions = {1, 2, 3}
  MaxLen = 9
  Faults = {}
  Acts = {"change", "spoil"}
INVARIANTS Answers Mine Args Untouched
VIEW LView
CHECK_DEADLOCK FALSE
