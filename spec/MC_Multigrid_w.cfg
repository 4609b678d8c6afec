SPECIFICATION Spec
INVARIANTS Nesting MachineIsCycle RightHandSideKept Solves SmoothsInPairs ExactSurvives ErrorAlone Emit
PROPERTY Finishes
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLevels = 4
  MaxIts = 3
  Label = "w"
