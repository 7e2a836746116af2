CONSTANTS Names = {1, 2} MaxCols = 2 MaxLen = 4 Views = FALSE Overlap = FALSE
          Acts = {"write", "make", "join"}
SPECIFICATION RSpec
INVARIANTS Reads Apart
VIEW RView
CHECK_DEADLOCK FALSE
