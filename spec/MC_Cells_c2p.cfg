SPECIFICATION Spec
INVARIANT Laws
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "cubical"
  N = 2
  V = 5
  MaxCells = 2
  Orders = "all"
  Label = "gen-c2p-"
