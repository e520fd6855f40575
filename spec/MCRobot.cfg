SPECIFICATION MCSpec
CONSTANTS
  Depth = 3
  Motion <- MCMotion
INVARIANTS Rigid BaseFree Placed SlideColumn TurnColumn References MassProps GravityProps Emit
CHECK_DEADLOCK FALSE
