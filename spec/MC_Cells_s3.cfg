SPECIFICATION Spec
INVARIANT Laws
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "simplicial"
  N = 3
  V = 5
  MaxCells = 5
  Orders = "both"
  Label = "gen-s3-"
