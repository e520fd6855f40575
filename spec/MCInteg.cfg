SPECIFICATION MCSpec
CONSTANTS
  N = 4
INVARIANTS SameAsIterate ClosedForm Linear Emit
CHECK_DEADLOCK FALSE
