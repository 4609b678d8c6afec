-------------------------------- MODULE Blocks --------------------------------
(* Block matrices: sequences of rows of blocks, each block a matrix (sequence  *)
(* of rows) of integers; block vectors: sequences of integer vectors.  Every   *)
(* operation on blocks stands for the same operation on the flattened object.  *)
EXTENDS Algebra

Concat(ss) == FoldLeft(LAMBDA a, b: a \o b, << >>, ss)
FlatV(v) == Concat(v)
RowSizes(B) == [i \in Idx(B) |-> Len(B[i][1])]
ColSizes(B) == [j \in Idx(B[1]) |-> Len(B[1][j][1])]
\* the pieces fit together
Fits(B) == /\ B # << >> /\ \A i \in Idx(B) : Len(B[i]) = Len(B[1]) /\ B[i] # << >>
           /\ \A i \in Idx(B) : \A j \in Idx(B[1]) : /\ Len(B[i][j]) = Len(B[i][1])
                                                    /\ B[i][j] # << >>
                                                    /\ \A r \in Idx(B[i][j]) : Len(B[i][j][r]) = Len(B[1][j][1])
FlatM(B) == Concat([i \in Idx(B) |-> [r \in Idx(B[i][1]) |-> Concat([j \in Idx(B[i]) |-> B[i][j][r]])]])
IMul(A, B) == [i \in Idx(A) |-> [j \in Idx(B[1]) |-> SumOver(Idx(B), LAMBDA k: A[i][k] * B[k][j])]]
IApply(A, x) == [i \in Idx(A) |-> SumOver(Idx(x), LAMBDA k: A[i][k] * x[k])]
IAdd(A, B) == [i \in Idx(A) |-> [j \in Idx(A[i]) |-> A[i][j] + B[i][j]]]
IHad(A, B) == [i \in Idx(A) |-> [j \in Idx(A[i]) |-> A[i][j] * B[i][j]]]
IScale(k, A) == [i \in Idx(A) |-> [j \in Idx(A[i]) |-> k * A[i][j]]]
ITrans(A) == [j \in Idx(A[1]) |-> [i \in Idx(A) |-> A[i][j]]]
IDiag(v) == [i \in Idx(v) |-> [j \in Idx(v) |-> IF i = j THEN v[i] ELSE 0]]
Sizes(v) == [i \in Idx(v) |-> Len(v[i])]
Pick2(B, rows, cols) == [i \in Idx(rows) |-> [j \in Idx(cols) |-> B[rows[i]][cols[j]]]]
BlockSum(n, m) == [i \in 1..n |-> [j \in 1..m |-> 0]]

\* the specified flat meaning, and block sizes <<rows, cols>>, of a matrix-valued operation
MatMeaning(e) ==
   CASE e.how = "build"     -> FlatM(e.A)
     [] e.how = "mul"       -> IMul(FlatM(e.A), FlatM(e.B))
     [] e.how = "add"       -> IAdd(FlatM(e.A), FlatM(e.B))
     [] e.how = "sub"       -> IAdd(FlatM(e.A), IScale(-1, FlatM(e.B)))
     [] e.how = "had"       -> IHad(FlatM(e.A), FlatM(e.B))
     [] e.how = "scale"     -> IScale(e.s, FlatM(e.A))
     [] e.how = "transpose" -> ITrans(FlatM(e.A))
     [] e.how = "keep"      -> FlatM(e.A)                 \* copy, simplify, split of a merge
     [] e.how = "slice"     -> FlatM(Pick2(e.A, e.rows, e.cols))
     [] e.how = "zeros"     -> BlockSum(SumSeq(e.rs), SumSeq(e.cs))
     [] e.how = "identity"  -> IDiag([i \in 1..SumSeq(e.rs) |-> 1])
     [] e.how = "diagonal"  -> IDiag(FlatV(e.v))
MatSizes(e) ==
   CASE e.how \in {"build", "add", "sub", "had", "scale", "keep"} -> <<RowSizes(e.A), ColSizes(e.A)>>
     [] e.how = "mul" -> <<RowSizes(e.A), ColSizes(e.B)>>
     [] e.how = "transpose" -> <<ColSizes(e.A), RowSizes(e.A)>>
     [] e.how = "slice" -> <<RowSizes(Pick2(e.A, e.rows, e.cols)), ColSizes(Pick2(e.A, e.rows, e.cols))>>
     [] e.how \in {"zeros", "identity"} -> <<e.rs, e.cs>>
     [] e.how = "diagonal" -> <<Sizes(e.v), Sizes(e.v)>>
BlockMat_Fail(e) ==
   CASE Raised(e) -> {"BlockOperationRaised"}
     [] ~Fits(e.out) -> {"BlocksFitTogether"}
     [] <<RowSizes(e.out), ColSizes(e.out)>> # MatSizes(e) -> {"BlockLayout"}
     [] FlatM(e.out) # MatMeaning(e) -> {"BlocksMeanFlatResult"}
     [] e.flat # MatMeaning(e) -> {"FlatteningCommutes"}
     [] e.lin # << >> /\ (e.lin # MatMeaning(e) \/ e.linT # ITrans(MatMeaning(e))) -> {"LinearViewIsSameMap"}
     [] e.lshape # << >> /\ e.lshape # MatSizes(e) -> {"ClaimedShape"}
     [] e.square # "" /\ e.square # (IF MatSizes(e)[1] = MatSizes(e)[2] THEN "yes" ELSE "no") -> {"ClaimedSquare"}
     [] OTHER -> {}
\* vector-valued operations; entries are rationals
ZipV(a, b, f(_, _)) == [i \in Idx(a) |-> f(a[i], b[i])]
VecMeaning(e) ==
   CASE e.how = "build" -> FlatV(e.x)
     [] e.how = "apply" -> IApply(FlatM(e.A), FlatV(e.x))
     [] e.how = "add" -> ZipV(FlatV(e.x), FlatV(e.y), LAMBDA a, b: a + b)
     [] e.how = "sub" -> ZipV(FlatV(e.x), FlatV(e.y), LAMBDA a, b: a - b)
     [] e.how = "mul" -> ZipV(FlatV(e.x), FlatV(e.y), LAMBDA a, b: a * b)
     [] e.how = "scale" -> [i \in Idx(FlatV(e.x)) |-> e.s * FlatV(e.x)[i]]
     [] e.how = "abs" -> [i \in Idx(FlatV(e.x)) |-> Abs(FlatV(e.x)[i])]
     [] e.how = "keep" -> FlatV(e.x)
     [] e.how = "assign" -> FlatV([e.x EXCEPT ![e.i] = e.b])
     [] e.how = "restore" -> e.z
     [] e.how = "norm1" -> LET M == FlatM(e.A) IN
            IF e.axis = 1 THEN [i \in Idx(M) |-> SumOver(Idx(M[i]), LAMBDA j: Abs(M[i][j]))]
            ELSE [j \in Idx(M[1]) |-> SumOver(Idx(M), LAMBDA i: Abs(M[i][j]))]
     [] e.how = "diagonalof" -> LET M == FlatM(e.A) IN [i \in Idx(M) |-> M[i][i]]
VecSizes(e) ==
   CASE e.how = "apply" -> RowSizes(e.A)
     [] e.how = "norm1" -> IF e.axis = 1 THEN RowSizes(e.A) ELSE ColSizes(e.A)
     [] e.how = "diagonalof" -> RowSizes(e.A)
     [] OTHER -> Sizes(e.x)
BlockVec_Fail(e) ==
   CASE Raised(e) -> {"BlockOperationRaised"}
     [] Sizes(e.out) # VecSizes(e) -> {"BlockLayout"}
     [] FlatV(e.out) # VecMeaning(e) -> {"BlocksMeanFlatResult"}
     [] e.flat # VecMeaning(e) -> {"FlatteningCommutes"}
     [] OTHER -> {}
\* divisions: out holds rationals
BlockDiv_Fail(e) ==
   CASE Raised(e) -> {"BlockOperationRaised"}
     [] Len(FlatV(e.out)) # Len(FlatV(e.x)) -> {"BlockLayout"}
     [] \E i \in Idx(FlatV(e.x)) : ~REq(FlatV(e.out)[i], RNorm(FlatV(e.num)[i], FlatV(e.x)[i])) -> {"BlocksMeanFlatResult"}
     [] OTHER -> {}
BlockScalar_Fail(e) ==
   CASE Raised(e) -> {"BlockOperationRaised"}
     [] e.how = "sum" /\ e.out # SumSeq(FlatV(e.x)) -> {"BlocksMeanFlatResult"}
     [] OTHER -> {}
=============================================================================
