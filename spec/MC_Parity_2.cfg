SPECIFICATION Spec
CONSTANT N = 2
INVARIANTS SgnIsParity ReflectReverses SwapReverses RelSymmetric FacetsMatch Count0
POSTCONDITION CountOK
