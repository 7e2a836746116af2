SPECIFICATION SSpec
CONSTANTS
  Tracers = {1, 2}
  Comps = {1, 2}
  MaxLen = 4
  MaxVer = 2
  Faults = {"forgets"}
  Acts = {"set", "load", "change", "reset", "fail"}
INVARIANTS Current Held Own Drawn
VIEW SView
CHECK_DEADLOCK FALSE
