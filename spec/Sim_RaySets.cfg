CONSTANTS Names = {1, 2, 3} MaxCols = 2 MaxLen = 18 Views = FALSE Overlap = FALSE
          Acts = {"write", "make", "join", "how", "again", "end"}
SPECIFICATION RSpec
INVARIANTS Reads Apart EmitScript
CHECK_DEADLOCK FALSE
