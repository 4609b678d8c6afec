SPECIFICATION Spec
INVARIANTS Shapes0 Symmetric SolutionsSurvive Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Shape <- ShL
  Label = "a"
  MaxSteps = 3
