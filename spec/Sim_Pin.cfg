SPECIFICATION SSpec
CONSTANTS
  MaxObjs = 6
  MaxLen = 20
  Gens = {1, 2}
  Kinds = {"leaf", "other"}
  MaxPins = 3
  PinLen = 4
  Acts = {"new", "csg", "group", "tf", "pin", "end"}
  Depth = 3
  RootResets = TRUE
  Sharing = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
