SPECIFICATION Spec
INVARIANTS Closed Solvable ResidualIsShared ExactWhereNothingIsCreated Uniform OppositeSides
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  L = 3
  H = 2
  Most = 1
  Label = "q"
