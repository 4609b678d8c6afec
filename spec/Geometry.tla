------------------------------- MODULE Geometry -------------------------------
(* Complexes: topologies with vertex positions.  Given positions are integer  *)
(* vectors; computed positions are <<D, x>> standing for the rational vector  *)
(* x / D.                                                                     *)
EXTENDS Refine

RECURSIVE Det(_)
Det(M) == IF Len(M) = 0 THEN 1
          ELSE IF Len(M) = 1 THEN M[1][1]
          ELSE SumOver(Idx(M), LAMBDA j: IF M[1][j] = 0 THEN 0 ELSE
                 EvenSign(j + 1) * M[1][j] * Det([i \in 1..(Len(M) - 1) |-> Omit(M[i + 1], j)]))
VSub(a, b) == [i \in Idx(a) |-> a[i] - b[i]]
VScale(k, a) == [i \in Idx(a) |-> k * a[i]]
VAdd(a, b) == [i \in Idx(a) |-> a[i] + b[i]]
VSum(ss) == FoldLeft(VAdd, VScale(0, ss[1]), ss)
Dot(a, b) == CASE Len(a) = 3 -> a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
               [] Len(a) = 2 -> a[1] * b[1] + a[2] * b[2]
               [] OTHER -> SumOver(Idx(a), LAMBDA i: a[i] * b[i])
Columns(M, S) == LET js == SetToSortSeq(S, LAMBDA a, b: a < b) IN [i \in Idx(M) |-> [j \in Idx(js) |-> M[i][js[j]]]]
\* the rows of M are linearly dependent
Dependent(M) == Len(M) > Len(M[1]) \/ \A S \in KSubsets(Len(M), 1..Len(M[1])) : Det(Columns(M, S)) = 0

MeanOK(p, vs) == VScale(Len(vs), p[2]) = VScale(p[1], VSum(vs))
\* p lies in the affine hull of vs at equal power (squared distance less weight) to all of them
PowerOK(p, vs, ws) ==
   /\ \A i \in 2..Len(vs) : Dot(VSub(VScale(2, p[2]), VScale(p[1], VAdd(vs[i], vs[1]))), VSub(vs[i], vs[1])) = p[1] * (ws[1] - ws[i])
   /\ Len(vs) <= Len(vs[1]) =>
        Dependent([i \in Idx(vs) |-> IF i = 1 THEN VSub(p[2], VScale(p[1], vs[1])) ELSE VSub(vs[i], vs[1])])
CircumOK(p, vs) == PowerOK(p, vs, [i \in Idx(vs) |-> 0])
CentreOK(how, p, vs) == IF how = "mean" THEN MeanOK(p, vs) ELSE CircumOK(p, vs)
CornersAt(T, pos, k, i) == [c \in Idx(T.E[k + 1][i]) |-> pos[T.E[k + 1][i][c]]]

\* a refined vertex sits at the position of the parent element it stands for
Positions_Fail(e, T) ==
   LET own == Owners(T, e.dims)
   IN CASE Raised(e) -> {"PositionsRaised"}
        [] Len(e.fine) # Len(own) -> {"OnePositionPerVertex"}
        [] \E v \in Idx(own) : Len(e.fine[v][2]) # Len(e.coarse[1]) -> {"PositionDimension"}
        [] \E v \in Idx(own) : ~CentreOK(e.centre, e.fine[v], CornersAt(T, e.coarse, own[v][1], own[v][2])) -> {"VertexAtElementPosition"}
        [] OTHER -> {}
\* positions of all elements, per dimension; dual positions: primal elements, then boundary elements
ElementPositions_Fail(e, T) ==
   LET once == OnceRows(T)
       bnd == IF once = {} THEN [d \in 0..(T.n - 1) |-> {}] ELSE Faces(T, once)
       N == T.n
   IN CASE Raised(e) -> {"PositionsRaised"}
        [] Len(e.primal) # N + 1 \/ Len(e.dual) # N + 1 -> {"PositionLists"}
        [] \E k \in 0..N : Len(e.primal[k + 1]) # Count(T, k) -> {"OnePositionPerElement"}
        [] \E k \in 0..N : \E i \in 1..Count(T, k) : ~CentreOK(e.centre, e.primal[k + 1][i], CornersAt(T, e.coarse, k, i)) -> {"ElementPosition"}
        [] \E k \in 0..N : Len(e.dual[k + 1]) # Count(T, N - k) + (IF k = N THEN 0 ELSE Cardinality(bnd[N - k - 1])) -> {"DualPositionCount"}
        [] \E k \in 0..N : SubSeq(e.dual[k + 1], 1, Count(T, N - k)) # e.primal[N - k + 1] -> {"DualPositionIsPrimal"}
        [] \E k \in 0..(N - 1) : Rng(SubSeq(e.dual[k + 1], Count(T, N - k) + 1, Len(e.dual[k + 1])))
                                   # {e.primal[N - k][i] : i \in bnd[N - k - 1]} -> {"DualBoundaryPosition"}
        [] OTHER -> {}
\* positions (and weights) inherited through a parent index
Carried_Fail(e) ==
   CASE Raised(e) -> {"CarriedRaised"}
     [] Len(e.fine) # Len(e.parent_idx) -> {"CarriedCount"}
     [] \E v \in Idx(e.fine) : e.fine[v] # e.coarse[e.parent_idx[v]] -> {"KeepsPositions"}
     [] OTHER -> {}
\* the vertex for a pair of vertices is at the concatenation of their positions
ProductPositions_Fail(e, A, B) ==
   CASE Raised(e) -> {"ProductRaised"}
     [] Len(e.fine) # Len(e.a) * Len(e.b) -> {"ProductVertices"}
     [] \E i \in Idx(e.a) : \E j \in Idx(e.b) : e.fine[PairV(A, i, j)] # e.a[i] \o e.b[j] -> {"ProductPosition"}
     [] OTHER -> {}
\* full-dimensional simplices at positions x / D tile: all of one sign, volumes add to that of the boxes
SimplexDet(c, pos) == Det([i \in 1..(Len(c) - 1) |-> VSub(pos[c[i + 1]], pos[c[1]])])
BoxVolume(c, pos) == LET lo == pos[c[1]]
                         hi == pos[c[Len(c)]]
                     IN ProdSeq([a \in Idx(lo) |-> Abs(hi[a] - lo[a])])
Tiling_Fail(e, T, R) ==
   LET vols == [i \in 1..Count(R, R.n) |-> SimplexDet(Cells(R)[i], e.fine)]
       whole == SumOver(1..Count(T, T.n), LAMBDA i: BoxVolume(Cells(T)[i], e.coarse))
   IN CASE Raised(e) -> {"TilingRaised"}
        [] \E i \in Idx(vols) : vols[i] = 0 -> {"FlatPiece"}
        [] SumSeq([i \in Idx(vols) |-> Abs(vols[i])]) # whole * Pow(e.D, T.n) * Fact(T.n) -> {"PiecesTileParent"}
        [] Cardinality(Components(T)) = 1 /\ Cardinality({Sign(vols[i]) : i \in Idx(vols)}) # 1 -> {"PiecesSameOrientation"}
        [] OTHER -> {}
=============================================================================
