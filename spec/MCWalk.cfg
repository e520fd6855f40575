SPECIFICATION MCSpec
CONSTANTS
  Feet = 6
  Grid = TRUE
INVARIANTS OneByOne TwoFeet Marks OnlyFirstDated Complete Closed StepProps Emit
CHECK_DEADLOCK FALSE
