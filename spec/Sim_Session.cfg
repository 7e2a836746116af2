SPECIFICATION SSpec
CONSTANTS
  Tracers = {1, 2}
  Comps = {1, 2, 3, 4}
  MaxLen = 22
  MaxVer = 20
  Faults = {}
  Acts = {"set", "load", "change", "reset", "fail", "look", "end"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
