SPECIFICATION MCSpec
CONSTANTS
  Depth = 3
INVARIANTS Shaped Meaning Duality Emit
CHECK_DEADLOCK FALSE
