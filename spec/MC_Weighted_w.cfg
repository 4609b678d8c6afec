SPECIFICATION Spec
INVARIANTS EqualPowers MarginIsDualLength EmptyCircle WellCentredIsDelaunay
POSTCONDITION Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  L = 4
  H = 3
  LeastWeight = 1
  MostWeight = 2
  Label = "w"
