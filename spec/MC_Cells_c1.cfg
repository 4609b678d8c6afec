SPECIFICATION Spec
INVARIANT Laws
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "cubical"
  N = 1
  V = 4
  MaxCells = 3
  Orders = "both"
  Label = "gen-c1-"
