SPECIFICATION MCSpec
CONSTANTS
  Depth = 4
INVARIANTS Increasing Through Held Fresh Emit
CHECK_DEADLOCK FALSE
