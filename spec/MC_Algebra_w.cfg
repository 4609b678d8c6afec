SPECIFICATION Spec
INVARIANTS KeepsMeaning WellTyped Adjoint ReverseProduct
PROPERTIES Shrinks
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  Shape <- Shw
  Label = "w"
  Depth2 = TRUE
