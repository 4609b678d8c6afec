SPECIFICATION Spec
INVARIANTS AddMeans PairsMean DotMeans DotTransposed MulMeans DotDistributes
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxA = 2
  MaxB = 2
  NLabels = 2
  Label = "q"
