SPECIFICATION Spec
INVARIANTS JudgmentIsConvexity HigherPoleHolds AreaOverOtherDiagonal KitesTile
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  R = 7
  Label = "w"
