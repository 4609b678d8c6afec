SPECIFICATION Spec
INVARIANTS AddMeans PairsMean DotMeans DotTransposed MulMeans DotDistributes
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxA = 3
  MaxB = 2
  NLabels = 2
  Label = "w"
