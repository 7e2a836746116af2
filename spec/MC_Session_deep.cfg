SPECIFICATION SSpec
CONSTANTS
  Tracers = {1, 2}
  Comps = {1, 2}
  MaxLen = 6
  MaxVer = 1
  Faults = {}
  Acts = {"set", "load", "change", "reset", "fail"}
INVARIANTS Current Held Own Drawn
VIEW SView
CHECK_DEADLOCK FALSE
