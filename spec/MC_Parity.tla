------------------------------- MODULE MC_Parity -------------------------------
(* Exhaustive theorems about the parity vocabulary: Sgn and CubeRel are       *)
(* homomorphisms onto signs, CubeRel accepts exactly the 2^n n! symmetries,   *)
(* and the boundary sign of a cube face agrees with re-presentation.          *)
(* Arrangements are enumerated by successive swaps from the canonical one.    *)
EXTENDS Parity
CONSTANTS N                          \* cube dimension
VARIABLES arr, steps

All == Pow(2, N)
Init == arr = Canonical(N) /\ steps = 0
Swap(i, j) == arr' = [arr EXCEPT ![i] = arr[j], ![j] = arr[i]] /\ steps' = 1 - steps
Next == \E i, j \in 1..All : i < j /\ Swap(i, j)
Spec == Init /\ [][Next]_<<arr, steps>>

\* every transposition changes the sign of the vertex permutation: steps is its parity
SgnIsParity == Sgn(arr) = EvenSign(steps)
\* a cube symmetry as a corner arrangement is the composition of reflections and axis swaps
Symm == CubeRel(arr, Canonical(N), N) # 0
\* reflecting an axis reverses, swapping two adjacent axes reverses
Reflect(c, a) == [j \in 1..All |-> c[XorBits(j - 1, Pow(2, N - a), N) + 1]]
SwapBits(j, a, b) == LET x == Bit(j, a, N) y == Bit(j, b, N) IN
                     IF x = y THEN j ELSE XorBits(j, Pow(2, N - a) + Pow(2, N - b), N)
SwapAxes(c, a, b) == [j \in 1..All |-> c[SwapBits(j - 1, a, b) + 1]]
ReflectReverses == \A a \in 1..N : CubeRel(Reflect(arr, a), Canonical(N), N) = -CubeRel(arr, Canonical(N), N)
SwapReverses == \A a, b \in 1..N : a < b => CubeRel(SwapAxes(arr, a, b), Canonical(N), N) = -CubeRel(arr, Canonical(N), N)
RelSymmetric == CubeRel(Canonical(N), arr, N) = CubeRel(arr, Canonical(N), N)
\* the facets of a symmetric presentation are the facets of the cube, with consistently related signs
FacetsMatch == Symm => /\ {Rng(f) : f \in CubeFaces(arr, N)} = {Rng(f) : f \in CubeFaces(Canonical(N), N)}
                       /\ N > 1 => \A f \in CubeFaces(Canonical(N), N) :
                            CubeSign(f, arr, N) = CubeRel(arr, Canonical(N), N) * CubeSign(f, Canonical(N), N)
Count0 == IF TLCGet("level") > 0 /\ Symm THEN TLCSet(1, TLCGet(1) + 1) ELSE TRUE
InitCount == TLCSet(1, 0)
ASSUME InitCount
\* both parities of `steps` never reach the same arrangement, so each symmetry is counted once
CountOK == TLCGet(1) = Pow(2, N) * Fact(N)
=============================================================================
