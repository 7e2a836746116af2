SPECIFICATION SSpec
CONSTANTS
  MaxObjs = 8
  MaxLen = 24
  Gens = {1, 2}
  Kinds = {"leaf", "other"}
  MaxPins = 2
  PinLen = 3
  Acts = {"new", "csg", "group", "member", "tf", "inv", "bad", "pin", "end"}
  Depth = 4
  RootResets = FALSE
  Sharing = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
