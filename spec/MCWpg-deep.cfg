SPECIFICATION MCSpec
CONSTANTS
  Depth = 3
  Counts = {1, 3}
INVARIANTS Contiguous PhaseClock Ends Alternate Planted NoJump Clears Continuous SameEnd Emit
CHECK_DEADLOCK FALSE
