SPECIFICATION CSpec
CONSTANTS
  Names = {1, 2, 3, 4}
  Rays = {1, 2, 3}
  MaxLen = 24
  Faults = {}
  Acts = {"kinds", "unit", "end"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
