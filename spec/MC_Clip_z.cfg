SPECIFICATION Spec
INVARIANTS Tiles FitTogether Halves
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxHeight = 1
  WithZero = TRUE
  Label = "z"
