SPECIFICATION SSpec
CONSTANTS
  MaxObjs = 3
  MaxLen = 14
  Gens = {1, 2, 3}
  Kinds = {"leaf", "other"}
  MaxPins = 1
  PinLen = 2
  Acts = {"new", "tf", "bad", "end"}
  Depth = 1
  RootResets = TRUE
  Sharing = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
