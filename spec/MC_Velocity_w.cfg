SPECIFICATION Spec
INVARIANTS Closed Solvable ResidualIsShared ExactWhereNothingIsCreated Uniform OppositeSides
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  L = 4
  H = 3
  Most = 1
  Label = "w"
