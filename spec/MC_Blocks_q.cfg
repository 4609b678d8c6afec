SPECIFICATION Spec
INVARIANTS RoundTrip TransposeFlat AddFlat ApplyFlat MulFlat AdjointFlat
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxBlocks = 2
  MaxSize = 2
  Label = "q"
