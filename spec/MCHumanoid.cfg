SPECIFICATION MCSpec
CONSTANTS
  Depth = 3
  Modes = {"stand", "walk"}
  Motion <- RealMotion
INVARIANTS Standing TrunkFollows RigidT FlatSupport FlatFeet Reach Apart Phases Emit
PROPERTIES ImuInPlace SwitchMovesNothing StepKeeps MoveKeeps
CHECK_DEADLOCK FALSE
