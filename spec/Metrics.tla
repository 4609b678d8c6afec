------------------------------- MODULE Metrics -------------------------------
(* Measures of elements and of their duals.                                   *)
EXTENDS Smoothing

REqS(a, b) == REq(<<a[1], a[2]>>, <<b[1], b[2]>>)
(* ---- axis aligned grids with integer positions ---- *)
Lo(pos, c, a) == CHOOSE x \in {pos[v][a] : v \in Rng(c)} : \A v \in Rng(c) : x <= pos[v][a]
Hi(pos, c, a) == CHOOSE x \in {pos[v][a] : v \in Rng(c)} : \A v \in Rng(c) : x >= pos[v][a]
Widths(pos, c) == [a \in Idx(pos[1]) |-> Hi(pos, c, a) - Lo(pos, c, a)]
WideProduct(w) == ProdSeq([a \in Idx(w) |-> IF w[a] = 0 THEN 1 ELSE w[a]])
\* widths of the cells, for every dimension
WidthTable(T, pos) == [k \in 0..T.n |-> [i \in 1..Count(T, k) |-> Widths(pos, T.E[k + 1][i])]]
\* cells containing each k-element: by the face table of the given m-cells
Cofaces(T, F, k, m, S) ==
   FoldSet(LAMBDA c, acc: FoldSet(LAMBDA i, a: [a EXCEPT ![i] = @ \cup {c}], acc, F[m][c][k]), [i \in 1..Count(T, k) |-> {}], S)
\* dual measure within the m-cells S, times 2^(m-k): transverse widths multiplied
DualBox(w, cof, k, m, i) ==
   SumOver(cof[i], LAMBDA c: ProdSeq([a \in Idx(w[m][c]) |-> IF w[m][c][a] # 0 /\ w[k][i][a] = 0 THEN w[m][c][a] ELSE 1]))
GridMetric_Fail(e, T) ==
   LET pos == e.coarse
       w == WidthTable(T, pos)
       F == FaceTable(T)
       N == T.n
       prim == [k \in 0..N |-> [i \in 1..Count(T, k) |-> WideProduct(w[k][i])]]
       dual == [k \in 0..N |-> LET cof == Cofaces(T, F, k, N, 1..Count(T, N))
                               IN [i \in 1..Count(T, k) |-> <<DualBox(w, cof, k, N, i), Pow(2, N - k)>>]]
       bnd == OnceRows(T)
       bdual == [k \in 0..(N - 1) |-> LET cof == Cofaces(T, F, k, N - 1, bnd)
                               IN [i \in 1..Count(T, k) |-> <<DualBox(w, cof, k, N - 1, i), Pow(2, N - 1 - k)>>]]
       total == SumSeq(prim[N])
   IN CASE Raised(e) -> {"MetricRaised"}
        [] Len(e.P) # N + 1 \/ Len(e.D) # N + 1 \/ Len(e.DP) # N + 1 \/ Len(e.PD) # N + 1 -> {"MetricLists"}
        [] \E k \in 0..N : Len(e.P[k + 1]) # Count(T, k) \/ Len(e.D[N - k + 1]) # Count(T, k)
                           \/ Len(e.DP[k + 1]) # Count(T, k) \/ Len(e.PD[k + 1]) # Count(T, k) -> {"MetricCounts"}
        [] \E k \in 0..N : \E i \in 1..Count(T, k) : ~REq(e.P[k + 1][i], RInt(prim[k][i])) -> {"PrimalMeasure"}
        [] \E k \in 0..N : \E i \in 1..Count(T, k) : ~REq(e.D[N - k + 1][i], dual[k][i]) -> {"DualMeasure"}
        [] \E k \in 0..N : \E i \in 1..Count(T, k) : ~REq(e.DP[k + 1][i], <<dual[k][i][1], dual[k][i][2] * prim[k][i]>>) -> {"HodgeDP"}
        [] \E k \in 0..N : \E i \in 1..Count(T, k) : ~REq(e.PD[k + 1][i], <<dual[k][i][2] * prim[k][i], dual[k][i][1]>>) -> {"HodgePD"}
        [] ~REq(RSumSeq(e.P[N + 1]), RInt(total)) \/ ~REq(RSumSeq(e.D[N + 1]), RInt(total)) -> {"MeasuresAddUp"}
        [] Len(e.closed) # N + 1 -> {"ClosedDualLists"}
        [] \E k \in 0..N : Len(e.closed[N - k + 1]) # Count(T, k) + (IF k = 0 THEN 0 ELSE Len(e.bidx[k])) -> {"ClosedDualCounts"}
        [] \E k \in 0..N : \E i \in 1..Count(T, k) : ~REq(e.closed[N - k + 1][i], dual[k][i]) -> {"ClosedDualInterior"}
        [] \E k \in 0..(N - 1) : \E j \in Idx(e.bidx[k + 1]) :
              ~REq(e.closed[N - k][Count(T, k + 1) + j], bdual[k][e.bidx[k + 1][j]]) -> {"ClosedDualBoundary"}
        [] OTHER -> {}

(* ---- simplicial complexes with integer positions ---- *)
Edges2(pos, c) == [i \in 1..(Len(c) - 1) |-> VSub(pos[c[i + 1]], pos[c[1]])]
GramDet(M) == Det([i \in Idx(M) |-> [j \in Idx(M) |-> Dot(M[i], M[j])]])
\* (k! measure)^2 of a k-simplex
Measure2(pos, c) == IF Len(c) = 1 THEN 1 ELSE GramDet(Edges2(pos, c))
\* planar: cotangent of the corner of triangle c opposite to the edge with vertex set s
Cot(pos, c, s) ==
   LET o == CHOOSE v \in Rng(c) : v \notin s
       p == SetToSeq(s)
       u == VSub(pos[p[1]], pos[o])
       v == VSub(pos[p[2]], pos[o])
   IN RNorm(Dot(u, v), Abs(u[1] * v[2] - u[2] * v[1]))
RSumSet(S, f(_)) == FoldSet(LAMBDA x, acc: RAdd(acc, f(x)), RZero, S)
Len2(pos, c) == LET d == VSub(pos[c[2]], pos[c[1]]) IN Dot(d, d)
\* measures common to all: counts, squares of primal measures
PrimalSquares(e, T) == \A k \in 0..T.n : \A i \in 1..Count(T, k) : REq(e.P2[k + 1][i], RNorm(Measure2(e.coarse, T.E[k + 1][i]), Fact(k) * Fact(k)))
MetricCounts(e, T) == \A k \in 0..T.n : Len(e.P2[k + 1]) = Count(T, k) /\ Len(e.diamond[k + 1]) = Count(T, k)
\* volume of the flag simplices through every element = primal x dual measure / C(N, k);
\* centres are common-denominator positions of all elements, verified here
FlagVolumes(T, centres, k) ==
   FoldSet(LAMBDA f, acc:
        [acc EXCEPT ![f[k + 1]] = @ + Abs(Det([d \in 1..T.n |-> VSub(centres[d + 1][f[d + 1]], centres[1][f[1]])]))],
        [i \in 1..Count(T, k) |-> 0], Flags(T))
WellCentredMetric_Fail(e, T) ==
   LET N == T.n
       vols == [k \in 0..N |-> FlagVolumes(T, e.centres, k)]
       whole == SumOver(1..Count(T, N), LAMBDA i: Abs(SimplexDet(Cells(T)[i], e.coarse)))
   IN CASE Raised(e) -> {"MetricRaised"}
        [] Len(e.P2) # N + 1 \/ Len(e.diamond) # N + 1 -> {"MetricLists"}
        [] ~MetricCounts(e, T) -> {"MetricCounts"}
        [] \E k \in 0..N : \E i \in 1..Count(T, k) : ~PowerOK(<<e.D, e.centres[k + 1][i]>>, CornersAt(T, e.coarse, k, i),
              [c \in 1..(k + 1) |-> IF Has(e, "weights") THEN e.weights[T.E[k + 1][i][c]] ELSE 0]) -> {"ElementPosition"}
        [] ~PrimalSquares(e, T) -> {"PrimalMeasure"}
        [] \E k \in 0..N : \E i \in 1..Count(T, k) :
              ~REq(e.diamond[k + 1][i], RNorm(Choose(N, k) * vols[k][i], Fact(N) * Pow(e.D, N))) -> {"PrimalTimesDual"}
        [] ~REq(e.volume[1], RNorm(whole, Fact(N))) -> {"PrimalAddUp"}
        [] ~REq(e.volume[2], RNorm(whole, Fact(N))) -> {"DualAddUp"}
        [] OTHER -> {}
\* planar triangulations, obtuse corners included: signed dual lengths and areas
PlanarMetric_Fail(e, T) ==
   LET pos == e.coarse
       tris(i) == {c \in 1..Count(T, 2) : i \in RowsOf(T.B[2].cols[c])}
       edgesOf(v) == {i \in 1..Count(T, 1) : v \in Rng(T.E[2][i])}
       cots == [i \in 1..Count(T, 1) |-> RSumSet({<<c, 0>> : c \in tris(i)}, LAMBDA q: Cot(pos, Cells(T)[q[1]], Rng(T.E[2][i])))]
       area(v) == RSumSet({<<i, 0>> : i \in edgesOf(v)}, LAMBDA q: RMul(cots[q[1]], <<Len2(pos, T.E[2][q[1]]), 8>>))
       whole == SumOver(1..Count(T, 2), LAMBDA i: Abs(SimplexDet(Cells(T)[i], pos)))
   IN CASE Raised(e) -> {"MetricRaised"}
        [] ~PrimalSquares(e, T) -> {"PrimalMeasure"}
        [] Len(e.DP) # 3 \/ Len(e.PD) # 3 \/ \E k \in 0..2 : Len(e.DP[k + 1]) # Count(T, k) \/ Len(e.PD[k + 1]) # Count(T, k) -> {"MetricCounts"}
        [] \E i \in 1..Count(T, 1) : ~REq(e.DP[2][i], RMul(cots[i], <<1, 2>>)) -> {"DualEdgeRatio"}
        [] \E v \in 1..Count(T, 0) : ~REq(e.DP[1][v], area(v)) -> {"DualVertexArea"}
        [] \E c \in 1..Count(T, 2) : ~REq(e.DP[3][c], RNorm(2, Abs(SimplexDet(Cells(T)[c], pos)))) -> {"DualTriangleRatio"}
        [] \E k \in 0..2 : \E i \in 1..Count(T, k) : e.DP[k + 1][i][1] # 0 /\ ~REq(e.PD[k + 1][i], RInv(e.DP[k + 1][i])) -> {"HodgePD"}
        [] Has(e, "cotan") /\ \E i \in 1..Count(T, 1) : ~REq(e.cotan[i], RMul(cots[i], <<1, 2>>)) -> {"CotanRatio"}
        [] Has(e, "areas") /\ \E c \in 1..Count(T, 2) : ~REq(e.areas[c], RNorm(Abs(SimplexDet(Cells(T)[c], pos)), 2)) -> {"TriangleArea"}
        [] Has(e, "vareas") /\ \E v \in 1..Count(T, 0) :
              ~REq(e.vareas[v], RNorm(SumOver({c \in 1..Count(T, 2) : v \in Rng(Cells(T)[c])}, LAMBDA c: Abs(SimplexDet(Cells(T)[c], pos))), 6)) -> {"VertexArea"}
        [] ~REq(e.volume[1], RNorm(whole, 2)) -> {"PrimalAddUp"}
        [] ~REq(e.volume[2], RNorm(whole, 2)) -> {"DualAddUp"}
        \* closed dual: half the boundary edges around each boundary vertex (boundaries with integer lengths)
        [] Has(e, "closed") /\ LET once == OnceRows(T)
                                   len(i) == CHOOSE x \in 1..60 : x * x = Len2(pos, T.E[2][i])
                               IN \/ Len(e.closed) # Len(e.bidx)
                                  \/ \E j \in Idx(e.bidx) : ~REq(e.closed[j], RNorm(SumOver(once \cap edgesOf(e.bidx[j]), len), 2)) -> {"ClosedDualBoundary"}
        [] OTHER -> {}
Metric_Fail(e, T) == CASE e.op = "gridmetric" -> GridMetric_Fail(e, T)
                       [] e.op = "wellcentred" -> WellCentredMetric_Fail(e, T)
                       [] e.op = "planar" -> PlanarMetric_Fail(e, T)

(* ---- closed surfaces and curves with integer positions ---- *)
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Surface_Fail(e, T) ==
   LET pos == e.coarse
       c(i) == Cells(T)[i]
       nrm == [i \in 1..Count(T, 2) |-> Cross(VSub(pos[c(i)[2]], pos[c(i)[1]]), VSub(pos[c(i)[3]], pos[c(i)[2]]))]
       vol6 == [i \in 1..Count(T, 2) |-> Det([j \in 1..3 |-> pos[c(i)[j]]])]
       sum3(S, f(_)) == FoldSet(LAMBDA i, acc: VAdd(acc, f(i)), <<0, 0, 0>>, S)
       all == 1..Count(T, 2)
       total6 == SumSeq(vol6)
   IN CASE Raised(e) -> {"SurfaceRaised"}
        [] e.normals # nrm -> {"TriangleNormals"}
        [] e.vnormals # [v \in 1..Count(T, 0) |-> sum3({i \in all : v \in Rng(c(i))}, LAMBDA i: nrm[i])] -> {"VertexNormals"}
        [] ~REq(e.volume, RNorm(total6, 6)) -> {"EnclosedVolume"}
        [] \E i \in all : ~MeanOK(e.centroids[i], CornersAt(T, pos, 2, i)) -> {"TriangleCentroids"}
        [] Len(e.lengths2) # Count(T, 1) \/ \E i \in 1..Count(T, 1) : ~REq(e.lengths2[i], RInt(Len2(pos, T.E[2][i]))) -> {"EdgeLengths"}
        [] e.closed /\ total6 # 0 /\
             LET m == sum3(all, LAMBDA i: VScale(vol6[i], VSum([j \in 1..3 |-> pos[c(i)[j]]])))
             IN VScale(4 * total6, e.com[2]) # VScale(e.com[1], m) -> {"CentreOfMass"}
        [] OTHER -> {}
\* total area: normals along the axes, so that it is rational
Area_Fail(e, T) ==
   LET twice == [i \in 1..Count(T, 2) |-> LET c == Cells(T)[i] n == Cross(VSub(e.coarse[c[2]], e.coarse[c[1]]), VSub(e.coarse[c[3]], e.coarse[c[1]]))
                                          IN Abs(n[1]) + Abs(n[2]) + Abs(n[3])]
   IN CASE Raised(e) -> {"SurfaceRaised"}
        [] ~REq(e.area, RNorm(SumSeq(twice), 2)) -> {"SurfaceArea"}
        \* a third of every triangle goes to each of its corners
        [] Len(e.vareas) # Count(T, 0) \/ \E v \in 1..Count(T, 0) :
              ~REq(e.vareas[v], RNorm(SumOver({i \in 1..Count(T, 2) : v \in Rng(Cells(T)[i])}, LAMBDA i: twice[i]), 6)) -> {"SurfaceVertexArea"}
        [] OTHER -> {}
Curve_Fail(e, T) ==
   LET once == OnceRows(T)
       c(i) == Cells(T)[i]
       twice == SumOver(1..Count(T, 1), LAMBDA i: e.coarse[c(i)[1]][1] * e.coarse[c(i)[2]][2] - e.coarse[c(i)[1]][2] * e.coarse[c(i)[2]][1])
   IN CASE once # {} /\ ~Raised(e) -> {"OpenCurveAccepted"}
        [] once # {} -> {}
        [] Raised(e) -> {"CurveRaised"}
        [] ~REq(e.volume, RNorm(twice, 2)) /\ ~REq(e.volume, RNorm(-twice, 2)) -> {"EnclosedArea"}
        [] ~REq(e.volume, RNorm(twice, 2)) -> {"EnclosedAreaSign"}
        [] OTHER -> {}
=============================================================================
