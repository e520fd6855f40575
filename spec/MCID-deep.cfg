SPECIFICATION MCSpec
CONSTANTS
  Depth = 3
  Motion <- SlideMotion
INVARIANTS Newton Touches Limits Hard Moves Refused Rest Emit
CHECK_DEADLOCK FALSE
