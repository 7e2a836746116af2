SPECIFICATION SSpec
CONSTANTS
  MaxObjs = 4
  MaxLen = 8
  Gens = {1}
  Kinds = {"leaf"}
  MaxPins = 1
  PinLen = 2
  Acts = {"new", "csg", "group", "member", "tf", "inv", "pin"}
  Depth = 3
  RootResets = TRUE
  Sharing = TRUE
INVARIANTS BoxesFresh NormalsOutward
PROPERTIES Once Restored
VIEW SView
CHECK_DEADLOCK FALSE
