SPECIFICATION MCSpec
CONSTANTS
  Depth = 3
  Motion <- SlideMotion
INVARIANTS Limits Masks BaseStill Hard Still Alone Refused Emit
CHECK_DEADLOCK FALSE
