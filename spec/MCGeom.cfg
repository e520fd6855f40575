SPECIFICATION MCSpec
CONSTANTS
  Size = 2
INVARIANTS Symmetric OnBoth Ends Reversal Emit
CHECK_DEADLOCK FALSE
