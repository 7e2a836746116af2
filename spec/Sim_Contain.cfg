SPECIFICATION SSpec
CONSTANTS
  MaxObjs = 7
  MaxLen = 22
  Gens = {1, 2}
  Kinds = {"leaf", "other"}
  MaxPins = 1
  PinLen = 2
  Acts = {"new", "csg", "group", "member", "tf", "end"}
  Depth = 4
  RootResets = TRUE
  Sharing = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
