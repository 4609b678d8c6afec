SPECIFICATION Spec
INVARIANT Laws
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "simplicial"
  N = 2
  V = 5
  MaxCells = 10
  Orders = "one"
  Label = "gen-s2w-"
