SPECIFICATION Spec
CONSTANT N = 1
INVARIANTS SgnIsParity ReflectReverses SwapReverses RelSymmetric FacetsMatch Count0
POSTCONDITION CountOK
