SPECIFICATION Spec
INVARIANTS Tiles FitTogether Halves
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxHeight = 2
  WithZero = FALSE
  Label = "q"
