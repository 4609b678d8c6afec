SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS SgnIsParity ReflectReverses SwapReverses RelSymmetric FacetsMatch Count0
POSTCONDITION CountOK
