SPECIFICATION Spec
INVARIANTS EqualPowers MarginIsDualLength EmptyCircle WellCentredIsDelaunay
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  L = 3
  H = 2
  LeastWeight = 0
  MostWeight = 2
  Label = "q"
