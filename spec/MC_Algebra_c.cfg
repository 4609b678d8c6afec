SPECIFICATION Spec
INVARIANTS KeepsMeaning WellTyped Adjoint ReverseProduct
PROPERTIES Shrinks
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  Shape <- Shc
  Label = "c"
  Depth2 = FALSE
