SPECIFICATION SSpec
CONSTANTS
  MaxObjs = 3
  MaxLen = 6
  Gens = {1, 2}
  Kinds = {"leaf"}
  MaxPins = 1
  PinLen = 2
  Acts = {"new", "csg", "group", "member", "tf", "inv", "bad", "pin"}
  Depth = 2
  RootResets = TRUE
  Sharing = TRUE
INVARIANTS BoxesFresh NormalsOutward
PROPERTIES Once Restored
VIEW SView
CHECK_DEADLOCK FALSE
