SPECIFICATION Spec
INVARIANT HoldsPoint
PROPERTY Answered
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  NX = 3
  NY = 2
  HX = 4
  HY = 12
  Label = "pick-w-"
