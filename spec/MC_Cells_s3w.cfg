SPECIFICATION Spec
INVARIANT Laws
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "simplicial"
  N = 3
  V = 6
  MaxCells = 3
  Orders = "one"
  Label = "gen-s3w-"
