SPECIFICATION Spec
INVARIANTS Nesting MachineIsCycle RightHandSideKept Solves SmoothsInPairs ExactSurvives ErrorAlone Emit
PROPERTY Finishes
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLevels = 3
  MaxIts = 2
  Label = "q"
