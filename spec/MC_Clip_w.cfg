SPECIFICATION Spec
INVARIANTS Tiles FitTogether Halves
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxHeight = 3
  WithZero = TRUE
  Label = "w"
