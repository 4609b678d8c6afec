SPECIFICATION Spec
INVARIANTS PseudoInverse OnlyOne ClosestHasNoRival NoMirrorCloser Adjugates
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  Rows = 3
  Cols = 3
  Entries = {0, 1, 2}
  Label = "t"
