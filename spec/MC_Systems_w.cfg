SPECIFICATION Spec
INVARIANTS Shapes0 Symmetric SolutionsSurvive Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Shape <- ShW
  Label = "w"
  MaxSteps = 2
