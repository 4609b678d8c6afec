SPECIFICATION Spec
INVARIANTS KeepsMeaning WellTyped Adjoint ReverseProduct
PROPERTIES Shrinks
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  Shape <- Shx
  Label = "x"
  Depth2 = FALSE
