SPECIFICATION SSpec
CONSTANTS
  MaxObjs = 7
  MaxLen = 18
  Gens = {1}
  Kinds = {"leaf"}
  MaxPins = 1
  PinLen = 2
  Acts = {"new", "csg", "tf", "inv", "end"}
  Depth = 4
  RootResets = FALSE
  Sharing = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
