SPECIFICATION RSpec
CONSTANTS
  NRays = 3
  MaxGo = 2
  MaxLim = 4
INVARIANTS Chains Complete Ordered Alive Emit
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
