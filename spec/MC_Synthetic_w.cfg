SPECIFICATION Spec
INVARIANTS BoxFormula BoxBoundary CrossFormula SphereFormula RingFormula
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxCells = 48
  MaxSide = 5
  MaxDim = 5
  MaxRefine = 7
  Label = "w"
