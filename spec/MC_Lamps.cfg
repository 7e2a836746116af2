CONSTANTS Static = {1, 2} Plain = {3} Counts = {3, 5} MaxLen = 4 Aliased = FALSE Shared = FALSE
          Acts = {"spoil", "spoilany", "move", "colour"}
SPECIFICATION LSpec
INVARIANTS Repeats Intact Own Places
VIEW LView
CHECK_DEADLOCK FALSE
