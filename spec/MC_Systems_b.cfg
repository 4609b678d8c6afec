SPECIFICATION Spec
INVARIANTS Shapes0 Symmetric SolutionsSurvive Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Shape <- ShP
  Label = "b"
  MaxSteps = 2
