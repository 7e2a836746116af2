SPECIFICATION SSpec
CONSTANTS
  Tracers = {1, 2}
  Comps = {1, 2}
  MaxLen = 4
  MaxVer = 2
  Faults = {"ledger"}
  Acts = {"set", "load", "change", "reset", "fail"}
INVARIANTS Current Held Own Drawn
VIEW SView
CHECK_DEADLOCK FALSE
