SPECIFICATION Spec
INVARIANTS Components0 Accepted ComposeZero TransfersCommute RefineCommutes CoarsenCommutes AdjointUpToScale ConstantsSurvive
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxDim = 3
  MaxSide = 6
  MaxCells = 48
  Label = "w"
