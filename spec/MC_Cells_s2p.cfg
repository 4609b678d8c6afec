SPECIFICATION Spec
INVARIANT Laws
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "simplicial"
  N = 2
  V = 5
  MaxCells = 2
  Orders = "all"
  Label = "gen-s2p-"
