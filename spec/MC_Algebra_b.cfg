SPECIFICATION Spec
INVARIANTS KeepsMeaning WellTyped Adjoint ReverseProduct
PROPERTIES Shrinks
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  Shape <- Shb
  Label = "b"
  Depth2 = FALSE
