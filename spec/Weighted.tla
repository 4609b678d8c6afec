------------------------------- MODULE Weighted -------------------------------
(* Power duals: vertices carry weights; the centre of an element has the same *)
(* power (squared distance less weight) with respect to all its corners.      *)
(* Judgments of meshes, and measures, that follow from the centres.           *)
EXTENDS Purity

WeightsAt(T, w, k, i) == [c \in Idx(T.E[k + 1][i]) |-> w[T.E[k + 1][i][c]]]
\* the rational vector p = <<D, x>> is the combination b of the integer vectors vs
CombinationAt(b, vs, p) == \A a \in Idx(vs[1]) : REq(RSumSeq([i \in Idx(b) |-> RMul(b[i], RInt(vs[i][a]))]), <<p[2][a], p[1]>>)
RDist2(p, q) ==       \* of rational vectors <<D, x>>
   RSumSeq([a \in Idx(p[2]) |-> LET d == RSub(RNorm(p[2][a], p[1]), RNorm(q[2][a], q[1])) IN RMul(d, d)])
\* facets of the i-th cell are listed by the corner they miss, those of an edge by the corner they are
OppositeFacet(T, i, j) == CHOOSE r \in RowsOf(T.B[T.n].cols[i]) : Cells(T)[i][j] \notin Rng(T.E[T.n][r])
Opposites(T) == [i \in 1..Count(T, T.n) |-> [j \in 1..(T.n + 1) |-> IF T.n = 1 THEN Cells(T)[i][j] ELSE OppositeFacet(T, i, j)]]
\* how deep the centre of cell i sits within it, seen from the j-th facet
Depth(e, T, opp, i, j) == RMul(<<Sign(e.bary[T.n + 1][i][IF T.n = 1 THEN 3 - j ELSE j][1]), 1>>, RDist2(e.centres[T.n + 1][i], e.centres[T.n][opp[i][j]]))
\* three answers: certain either way, or on the border where rounding decides
Certain(xs) == IF \E x \in xs : x < 0 THEN "no" ELSE IF \E x \in xs : x = 0 THEN "either" ELSE "yes"
Says(flag, xs) == LET c == Certain(xs) IN c = "either" \/ flag = (c = "yes")
FacetMargins(T, opp, depth) ==
   FoldLeft(LAMBDA acc, q: [acc EXCEPT ![opp[q[1]][q[2]]] = RAdd(@, depth[q[1]][q[2]])], [r \in 1..Count(T, T.n - 1) |-> RZero],
            SetToSeq((1..Count(T, T.n)) \X (1..(T.n + 1))))
BarySigns(e) == {x[1] : x \in UNION {UNION {Rng(e.bary[k][i]) : i \in Idx(e.bary[k])} : k \in Idx(e.bary)}}
Weighted_Fail(e, T) ==
   LET N == T.n
       el(k) == 1..Count(T, k)
       opp == Opposites(T)
       depth == TLCEval([i \in el(N) |-> [j \in 1..(N + 1) |-> Depth(e, T, opp, i, j)]])
       same(got, want(_)) == \A i \in el(N) : \A j \in 1..(N + 1) : REq(got[i][j], want(depth[i][j]))
   IN CASE Raised(e) -> {"PositionsRaised"}
        [] Len(e.bary) # N + 1 \/ Len(e.centres) # N + 1 -> {"PositionLists"}
        [] \E k \in 0..N : Len(e.bary[k + 1]) # Count(T, k) \/ Len(e.centres[k + 1]) # Count(T, k) -> {"OnePositionPerElement"}
        [] \E k \in 0..N : \E i \in el(k) : ~REq(RSumSeq(e.bary[k + 1][i]), ROne) -> {"BarycentricSum"}
        [] \E k \in 0..N : \E i \in el(k) : ~CombinationAt(e.bary[k + 1][i], CornersAt(T, e.coarse, k, i), e.centres[k + 1][i]) -> {"PositionIsCombination"}
        [] \E k \in 0..N : \E i \in el(k) : ~PowerOK(e.centres[k + 1][i], CornersAt(T, e.coarse, k, i), WeightsAt(T, e.weights, k, i)) -> {"EqualPower"}
        [] ~Says(e.wellcentred, BarySigns(e)) -> {"WellCentredJudgment"}
        [] Len(e.excess[1]) # Count(T, N) \/ Len(e.excess[2]) # Count(T, N) -> {"ExcessCount"}
        [] ~same(e.excess[1], LAMBDA x: x) -> {"DualEdgeExcess"}
        [] ~same(e.excess[2], LAMBDA x: <<Abs(x[1]), x[2]>>) -> {"DualEdgeExcessUnsigned"}
        [] ~Says(e.delaunay, {x[1] : x \in Rng2(FacetMargins(T, opp, depth))}) -> {"PairwiseDelaunayJudgment"}
        [] OTHER -> {}
\* sums of values given per corner of the cells: around vertices, and around the opposite facets
Remap_Fail(e, T) ==
   LET N == T.n
       opp == Opposites(T)
       pairs == (1..Count(T, N)) \X (1..(N + 1))
       at0(v) == SumOver({q \in pairs : Cells(T)[q[1]][q[2]] = v}, LAMBDA q: e.field[q[1]][q[2]])
       atN(r, g(_)) == SumOver({q \in pairs : opp[q[1]][q[2]] = r}, LAMBDA q: g(q) * e.field[q[1]][q[2]])
   IN CASE Raised(e) -> {"RemapRaised"}
        [] e.around # [v \in 1..Count(T, 0) |-> at0(v)] -> {"SumAroundVertices"}
        [] e.plain # [r \in 1..Count(T, N - 1) |-> atN(r, LAMBDA q: 1)] -> {"SumAroundFacets"}
        [] e.signed # [r \in 1..Count(T, N - 1) |-> atN(r, LAMBDA q: Coef(T.B[N].cols[q[1]], r))] -> {"SignedSumAroundFacets"}
        [] OTHER -> {}
\* the dual cell of a vertex: the points of least power
PowerPick_Fail(e, T) ==
   LET power(v, q) == LET d == VSub(e.coarse[v], q) IN Dot(d, d) - e.weights[v]
   IN CASE Raised(e) -> {"PickRaised"}
        [] Len(e.vertex) # Len(e.pts) -> {"PickCounts"}
        [] \E j \in Idx(e.pts) : e.vertex[j] \notin 1..Count(T, 0) -> {"PickIndex"}
        [] \E j \in Idx(e.pts) : \E v \in 1..Count(T, 0) : power(v, e.pts[j]) < power(e.vertex[j], e.pts[j]) -> {"PickLeastPower"}
        [] OTHER -> {}
(* measures of planar weighted meshes whose edge centres lie on their edges *)
Turn(u, v) == u[1] * v[2] - u[2] * v[1]
WeightedPlanar_Fail(e, T) ==
   LET pos == e.coarse
       edge(i) == T.E[2][i]
       tris == TLCEval([i \in 1..Count(T, 1) |-> {c \in 1..Count(T, 2) : i \in RowsOf(T.B[2].cols[c])}])
       \* twice the signed area of the triangle of edge i and the centre of triangle c
       lean(i, c) == LET a == pos[edge(i)[1]]
                         u == VSub(pos[edge(i)[2]], a)
                         o == CHOOSE v \in Rng(Cells(T)[c]) : v \notin Rng(edge(i))
                         x == e.centres[3][c]
                     IN RNorm(Sign(Turn(u, VSub(pos[o], a))) * Turn(u, VSub(x[2], VScale(x[1], a))), x[1])
       height == TLCEval([i \in 1..Count(T, 1) |-> RSumSet({<<c, 0>> : c \in tris[i]}, LAMBDA q: lean(i, q[1]))])
       \* the part of edge i belonging to its end v
       part(i, v) == e.bary[2][i][IF edge(i)[1] = v THEN 2 ELSE 1]
       edgesOf(v) == {i \in 1..Count(T, 1) : v \in Rng(edge(i))}
       area == TLCEval([v \in 1..Count(T, 0) |-> RSumSet({<<i, 0>> : i \in edgesOf(v)}, LAMBDA q: RMul(<<1, 2>>, RMul(part(q[1], v), height[q[1]])))])
       whole == SumOver(1..Count(T, 2), LAMBDA i: Abs(SimplexDet(Cells(T)[i], pos)))
       once == OnceRows(T)
       len(i) == CHOOSE x \in 1..60 : x * x = Len2(pos, edge(i))
       all == {x[1] : x \in Rng(height)} \cup {x[1] : x \in Rng(area)}
   IN CASE Raised(e) -> {"MetricRaised"}
        [] \E k \in 1..2 : \E i \in 1..Count(T, k) : ~PowerOK(e.centres[k + 1][i], CornersAt(T, pos, k, i), WeightsAt(T, e.weights, k, i)) -> {"EqualPower"}
        [] \E i \in 1..Count(T, 1) : ~CombinationAt(e.bary[2][i], CornersAt(T, pos, 1, i), e.centres[2][i]) -> {"PositionIsCombination"}
        [] \E i \in 1..Count(T, 1) : \E x \in Rng(e.bary[2][i]) : x[1] <= 0 -> {}
        [] ~PrimalSquares(e, T) -> {"PrimalMeasure"}
        [] Len(e.DP) # 3 \/ \E k \in 0..2 : Len(e.DP[k + 1]) # Count(T, k) -> {"MetricCounts"}
        [] \E i \in 1..Count(T, 1) : ~Near4(e.DP[2][i], RMul(height[i], <<1, Len2(pos, edge(i))>>)) -> {"DualEdgeRatio"}
        [] \E v \in 1..Count(T, 0) : ~Near4(e.DP[1][v], area[v]) -> {"DualVertexArea"}
        [] \E c \in 1..Count(T, 2) : ~Near4(e.DP[3][c], RNorm(2, Abs(SimplexDet(Cells(T)[c], pos)))) -> {"DualTriangleRatio"}
        [] ~REq(e.volume[1], RNorm(whole, 2)) -> {"PrimalAddUp"}
        [] ~REq(e.volume[2], RNorm(whole, 2)) -> {"DualAddUp"}
        [] ~Says(e.positive, all) -> {"PositiveDualJudgment"}
        \* closed dual: the parts of the boundary edges around each boundary vertex (integer lengths)
        [] Has(e, "closed") /\ (Len(e.closed) # Len(e.bidx)
              \/ \E j \in Idx(e.bidx) : ~Near4(e.closed[j], RSumSet({<<i, 0>> : i \in once \cap edgesOf(e.bidx[j])},
                     LAMBDA q: RMul(part(q[1], e.bidx[j]), RInt(len(q[1])))))) -> {"ClosedDualBoundary"}
        [] OTHER -> {}
=============================================================================
