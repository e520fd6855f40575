SPECIFICATION MCSpec
CONSTANTS
  Depth = 3
  Columns = 6
INVARIANTS Exact Emit
PROPERTIES Grows
CHECK_DEADLOCK FALSE
