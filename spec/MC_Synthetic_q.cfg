SPECIFICATION Spec
INVARIANTS BoxFormula BoxBoundary CrossFormula SphereFormula RingFormula
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxCells = 16
  MaxSide = 4
  MaxDim = 4
  MaxRefine = 7
  Label = "q"
