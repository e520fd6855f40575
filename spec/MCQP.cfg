SPECIFICATION MCSpec
CONSTANTS
  Depth = 5
  MaxVars = 2
INVARIANTS Published Layout Emit
PROPERTIES Atomic
VIEW View
CHECK_DEADLOCK FALSE
