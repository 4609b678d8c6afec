SPECIFICATION Spec
INVARIANTS KeepsMeaning WellTyped Adjoint ReverseProduct
PROPERTIES Shrinks
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  Shape <- Sha
  Label = "a"
  Depth2 = TRUE
