SPECIFICATION Spec
INVARIANT Laws
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  Kind = "cubical"
  N = 2
  V = 6
  MaxCells = 2
  Orders = "one"
  Label = "gen-c2q-"
