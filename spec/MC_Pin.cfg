SPECIFICATION SSpec
CONSTANTS
  MaxObjs = 3
  MaxLen = 7
  Gens = {1, 2}
  Kinds = {"leaf"}
  MaxPins = 1
  PinLen = 2
  Acts = {"new", "csg", "group", "tf", "pin"}
  Depth = 3
  RootResets = TRUE
  Sharing = FALSE
INVARIANTS BoxesFresh NormalsOutward
PROPERTIES Once Restored
VIEW SView
CHECK_DEADLOCK FALSE
