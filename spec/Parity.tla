-------------------------------- MODULE Parity --------------------------------
(* Permutations, combinations and the symmetry parities of simplices/cubes.   *)
EXTENDS Geometry

\* sign of the arrangement `out` of the distinct items L
RelSgn(out, L) == Sgn([i \in Idx(out) |-> CHOOSE j \in Idx(L) : L[j] = out[i]])
ParitySign(p) == IF p = 0 THEN 1 ELSE IF p = 1 THEN -1 ELSE 0
Perms_Fail(e) ==
   CASE Raised(e) -> {"PermutationsRaised"}
     [] \E i \in Idx(e.out) : Len(e.out[i]) # Len(e.L) \/ Rng(e.out[i]) # Rng(e.L) -> {"IsPermutation"}
     [] Len(e.out) # Fact(Len(e.L)) \/ Cardinality(Rng(e.out)) # Len(e.out) -> {"EveryPermutationOnce"}
     [] \E i \in Idx(e.out) : ParitySign(e.parity[i]) # RelSgn(e.out[i], e.L) -> {"PermutationParity"}
     [] OTHER -> {}
Rest(L, c) == SelectSeq(L, LAMBDA x: x \notin Rng(c))
Combs_Fail(e) ==
   CASE Raised(e) -> {"CombinationsRaised"}
     [] \E i \in Idx(e.out) : Len(e.out[i]) # e.k \/ SelectSeq(e.L, LAMBDA x: x \in Rng(e.out[i])) # e.out[i] -> {"IsCombination"}
     [] Len(e.out) # Choose(Len(e.L), e.k) \/ Cardinality(Rng(e.out)) # Len(e.out) -> {"EveryCombinationOnce"}
     [] \E i \in Idx(e.out) : ParitySign(e.parity[i]) # RelSgn(e.out[i] \o Rest(e.L, e.out[i]), e.L) -> {"ShuffleParity"}
     [] OTHER -> {}
SimplexParity_Fail(e) ==
   CASE Raised(e) -> {"SimplexParityRaised"}
     [] Len(e.parity) # Len(e.rows) -> {"ParityLength"}
     [] \E i \in Idx(e.rows) : ParitySign(e.parity[i]) # Sgn(e.rows[i]) -> {"SimplexParity"}
     [] OTHER -> {}
Canonical(n) == [i \in 1..Pow(2, n) |-> i - 1]
\* parity[i] = -1 records that the call refused the arrangement
CubeParity_Fail(e) ==
   CASE Raised(e) -> {"CubeParityRaised"}
     [] Len(e.parity) # Len(e.rows) -> {"ParityLength"}
     [] \E i \in Idx(e.rows) : LET r == CubeRel(e.rows[i], Canonical(e.n), e.n)
                               IN ParitySign(e.parity[i]) # r -> {"CubeParityOrRejection"}
     [] OTHER -> {}
\* one call with many arrangements: refused as a whole iff any is not a symmetry
CubeBatch_Fail(e) ==
   LET ok == \A i \in Idx(e.rows) : CubeRel(e.rows[i], Canonical(e.n), e.n) # 0
   IN CASE Raised(e) -> IF ok THEN {"CubeParityRaised"} ELSE IF e.raised = "ValueError" THEN {} ELSE {"WrongError"}
        [] ~ok -> {"AcceptsNonSymmetry"}
        [] OTHER -> CubeParity_Fail(e)
\* the symmetry table itself
SymmetryTable_Fail(e) ==
   CASE Raised(e) -> {"SymmetryTableRaised"}
     [] Len(e.rows) # Pow(2, e.n) * (IF e.rotations THEN Fact(e.n) ELSE 1) \/ Cardinality(Rng(e.rows)) # Len(e.rows) -> {"EverySymmetryOnce"}
     [] ~e.rotations /\ \E i \in Idx(e.rows) : \E j \in 0..(Pow(2, e.n) - 1) :
            e.rows[i][j + 1] # XorBits(e.rows[i][1], j, e.n) -> {"MirrorsOnly"}
     [] OTHER -> CubeParity_Fail(e)

Parity_Fail(e) ==
   CASE e.op = "perms" -> Perms_Fail(e)
     [] e.op = "combs" -> Combs_Fail(e)
     [] e.op = "simplexparity" -> SimplexParity_Fail(e)
     [] e.op = "cubeparity" -> CubeParity_Fail(e)
     [] e.op = "cubebatch" -> CubeBatch_Fail(e)
     [] e.op = "symmetrytable" -> SymmetryTable_Fail(e)
=============================================================================
