CONSTANTS Static = {1, 2, 3} Plain = {4} Counts = {2, 3, 5} MaxLen = 22 Aliased = FALSE Shared = FALSE
          Acts = {"spoil", "move", "colour", "end"}
SPECIFICATION LSpec
INVARIANTS Repeats Intact Own Places EmitScript
CHECK_DEADLOCK FALSE
