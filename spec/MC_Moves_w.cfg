SPECIFICATION Spec
INVARIANTS StepsAreOneMove Scalings StaysATriangle AreaByDeterminant
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxMoves = 4
  Label = "w"
