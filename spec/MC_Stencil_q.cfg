SPECIFICATION Spec
INVARIANTS Components0 Accepted ComposeZero TransfersCommute RefineCommutes CoarsenCommutes AdjointUpToScale ConstantsSurvive
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxDim = 3
  MaxSide = 4
  MaxCells = 12
  Label = "q"
