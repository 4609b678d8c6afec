SPECIFICATION Spec
INVARIANT Laws
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "simplicial"
  N = 1
  V = 4
  MaxCells = 4
  Orders = "both"
  Label = "gen-s1-"
