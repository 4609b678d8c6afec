SPECIFICATION Spec
INVARIANTS PseudoInverse OnlyOne ClosestHasNoRival NoMirrorCloser Adjugates
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  Rows = 1
  Cols = 3
  Entries = {0, 1, 2, 3, 4}
  Label = "l"
