SPECIFICATION Spec
INVARIANT HoldsPoint
PROPERTY Answered
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  NX = 2
  NY = 2
  HX = 8
  HY = 4
  Label = "pick-q-"
