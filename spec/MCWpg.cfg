SPECIFICATION MCSpec
CONSTANTS
  Depth = 3
  Counts = {2}
INVARIANTS Contiguous PhaseClock Ends Alternate Planted NoJump Clears Continuous SameEnd Emit
CHECK_DEADLOCK FALSE
