SPECIFICATION Spec
INVARIANT Laws
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "simplicial"
  N = 4
  V = 6
  MaxCells = 6
  Orders = "one"
  Label = "gen-s4-"
