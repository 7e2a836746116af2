SPECIFICATION CSpec
CONSTANTS
  Names = {1, 2}
  Rays = {1, 2}
  MaxLen = 6
  Faults = {"shared"}
  Acts = {}
INVARIANT Holds
VIEW CView
CHECK_DEADLOCK FALSE
