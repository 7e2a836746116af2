SPECIFICATION SSpec
CONSTANTS
  MaxObjs = 7
  MaxLen = 18
  Gens = {1, 2}
  Kinds = {"leaf"}
  MaxPins = 1
  PinLen = 2
  Acts = {"new", "csg", "group", "tf", "pin", "end"}
  Depth = 4
  RootResets = TRUE
  Sharing = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
