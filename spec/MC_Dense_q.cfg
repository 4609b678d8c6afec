SPECIFICATION Spec
INVARIANTS PseudoInverse OnlyOne ClosestHasNoRival NoMirrorCloser Adjugates
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  Rows = 2
  Cols = 2
  Entries = {0, 1, 2, 3, 4}
  Label = "q"
