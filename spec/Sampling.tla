------------------------------- MODULE Sampling -------------------------------
(* Point location and interpolation.  Positions are integers; query points    *)
(* are integers on a finer lattice.                                           *)
EXTENDS Metrics

(* ---- uniform axis aligned grids ---- *)
Between(lo, x, hi) == lo <= x /\ x <= hi
InCell(pos, c, q) == \A a \in Idx(q) : Between(Lo(pos, c, a), q[a], Hi(pos, c, a))
Holding(T, pos, q) == {i \in 1..Count(T, T.n) : InCell(pos, Cells(T)[i], q)}
\* beyond a full box the grid is continued constantly
ClampBox(pos, q) == [a \in Idx(q) |-> Max2(Min2(q[a], Hi(pos, [v \in Idx(pos) |-> v], a)), Lo(pos, [v \in Idx(pos) |-> v], a))]
Asked(e, q) == IF e.full THEN ClampBox(e.coarse, q) ELSE q
\* points the specification speaks about: those in a cell, or any point of a full box
Spoken(e, T) == {j \in Idx(e.pts) : Holding(T, e.coarse, Asked(e, e.pts[j])) # {}}
GridPick_Fail(e, T) ==
   LET pos == e.coarse
       N == T.n
       ok(j) == Asked(e, e.pts[j])
       sp == Spoken(e, T)
       first(c) == pos[c[1]]
       last(c) == pos[c[Len(c)]]
       at(c, b, a) == RAdd(RInt(first(c)[a]), RMul(b[a], RInt(last(c)[a] - first(c)[a])))
   IN CASE Raised(e) -> {"PickRaised"}
        [] Len(e.cell) # Len(e.pts) \/ Len(e.bary) # Len(e.pts) -> {"PickCounts"}
        [] \E j \in sp : e.cell[j] \notin 1..Count(T, N) -> {"PickIndex"}
        [] \E j \in sp : ~InCell(pos, Cells(T)[e.cell[j]], ok(j)) -> {"PickContainsPoint"}
        [] \E j \in sp : \E a \in 1..N : ~REq(at(Cells(T)[e.cell[j]], e.bary[j], a), RInt(e.pts[j][a])) -> {"PickCoordinates"}
        [] OTHER -> {}
\* twice the centre of an element
Mid2(pos, c) == [a \in Idx(pos[1]) |-> Lo(pos, c, a) + Hi(pos, c, a)]
GridFund_Fail(e, T) ==
   LET pos == e.coarse
       N == T.n
       F == FaceTable(T)
       sp == Spoken(e, T)
       last == Pow(2, N)
       weight(j) == SumOver(1..N, LAMBDA a: Bit(j, a, N))
       mid(d, i) == Mid2(pos, T.E[d + 1][i])
       valid(D) == /\ D[last] \in 1..Count(T, N)
                   /\ \A j \in 0..(last - 1) : D[j + 1] \in F[N][D[last]][weight(j)]
                   /\ \A j \in 0..(last - 1) : D[1] \in F[weight(j)][D[j + 1]][0]
                   /\ Cardinality({<<weight(j), D[j + 1]>> : j \in 0..(last - 1)}) = last
                   /\ \A i, j \in 0..(last - 1) : (\A a \in 1..N : Bit(i, a, N) <= Bit(j, a, N)) => D[i + 1] \in F[weight(j)][D[j + 1]][weight(i)]
       inside(D, q) == \A a \in 1..N : LET u == mid(0, D[1])[a] w == mid(N, D[last])[a] IN Between(Min2(u, w), 2 * q[a], Max2(u, w))
       at(D, b, a) == RAdd(RInt(mid(0, D[1])[a]), RMul(b[a], RInt(mid(N, D[last])[a] - mid(0, D[1])[a])))
   IN CASE Raised(e) -> {"PickRaised"}
        [] Len(e.domain) # Len(e.pts) \/ Len(e.bary) # Len(e.pts) -> {"PickCounts"}
        [] \E j \in sp : ~valid(e.domain[j]) -> {"DomainIsFlagCube"}
        [] \E j \in sp : ~inside(e.domain[j], Asked(e, e.pts[j])) -> {"PickContainsPoint"}
        [] \E j \in sp : \E a \in 1..N : ~REq(at(e.domain[j], e.bary[j], a), RInt(2 * e.pts[j][a])) -> {"PickCoordinates"}
        [] OTHER -> {}
GridDual_Fail(e, T) ==
   LET pos == e.coarse
       near(v, q) == \E c \in Holding(T, pos, q) : v \in Rng(Cells(T)[c]) /\
             \A a \in Idx(q) : 2 * Abs(q[a] - pos[v][a]) <= Hi(pos, Cells(T)[c], a) - Lo(pos, Cells(T)[c], a)
   IN CASE Raised(e) -> {"PickRaised"}
        [] Len(e.vertex) # Len(e.pts) -> {"PickCounts"}
        [] \E j \in Spoken(e, T) : ~near(e.vertex[j], Asked(e, e.pts[j])) -> {"PickNearestVertex"}
        [] OTHER -> {}
\* product of (width - distance) over the axes: 1 / product of widths of it is the multilinear weight
GridSample0_Fail(e, T) ==
   LET pos == e.coarse
       want(q) == LET c == Cells(T)[CHOOSE i \in Holding(T, pos, q) : TRUE]
                      w(a) == Hi(pos, c, a) - Lo(pos, c, a)
                      wt(v) == ProdSeq([a \in Idx(q) |-> w(a) - Abs(pos[v][a] - q[a])])
                  IN [m \in Idx(e.f[1]) |-> RNorm(SumOver(Rng(c), LAMBDA v: e.f[v][m] * wt(v)), ProdSeq([a \in Idx(q) |-> w(a)]))]
   IN CASE Raised(e) -> {"SampleRaised"}
        [] Len(e.out) # Len(e.pts) -> {"SampleCounts"}
        [] \E j \in Spoken(e, T) : LET u == want(Asked(e, e.pts[j])) IN \E m \in Idx(u) : ~REq(e.out[j][m], u[m]) -> {"SampleMultilinear"}
        [] OTHER -> {}
\* a dual 0-form: one value per cell, then one per boundary facet (listed in bfacets)
DualValues(T, F, bfacets, f, k, i, m) ==
   LET cs == {c \in 1..Count(T, T.n) : i \in F[T.n][c][k]}
       bs == IF k = T.n THEN {} ELSE {b \in Idx(bfacets) : i \in F[T.n - 1][bfacets[b]][k]}
   IN RNorm(SumOver(cs, LAMBDA c: f[c][m]) + SumOver(bs, LAMBDA b: f[Count(T, T.n) + b][m]), Cardinality(cs) + Cardinality(bs))
GridSampleDual_Fail(e, T) ==
   LET pos == e.coarse
       N == T.n
       F == FaceTable(T)
       manifold == Rng(e.bfacets) = {} \/ N = 1 \/ ManifoldBoundary(T, Rng(e.bfacets))
       want(q) ==
          LET c == CHOOSE i \in Holding(T, pos, q) : TRUE
              cell == Cells(T)[c]
              w(a) == Hi(pos, cell, a) - Lo(pos, cell, a)
              v == CHOOSE x \in Rng(cell) : \A a \in 1..N : 2 * Abs(q[a] - pos[x][a]) <= w(a)
              faces == UNION {{<<k, i>> : i \in {j \in F[N][c][k] : v \in F[k][j][0]}} : k \in 0..N}
              \* along axis a the face centre sits at v (offset 0) or half a width away
              wt(x) == ProdSeq([a \in 1..N |-> IF Mid2(pos, T.E[x[1] + 1][x[2]])[a] = 2 * pos[v][a]
                                               THEN w(a) - 2 * Abs(q[a] - pos[v][a]) ELSE 2 * Abs(q[a] - pos[v][a])])
          IN [m \in Idx(e.f[1]) |-> RMul(RSumSet(faces, LAMBDA x: RMul(DualValues(T, F, e.bfacets, e.f, x[1], x[2], m), RInt(wt(x)))),
                                         <<1, ProdSeq([a \in 1..N |-> w(a)])>>)]
   IN CASE ~manifold -> {}
        [] Raised(e) -> {"SampleRaised"}
        [] Len(e.out) # Len(e.pts) -> {"SampleCounts"}
        [] \E j \in Spoken(e, T) : LET u == want(Asked(e, e.pts[j])) IN \E m \in Idx(u) : ~REq(e.out[j][m], u[m]) -> {"SampleDualMultilinear"}
        [] OTHER -> {}

(* ---- simplicial complexes ---- *)
\* point q is the combination b of the corners ps (all over the same denominator)
Combination(b, ps, q) ==
   /\ \A i \in Idx(b) : b[i][1] >= 0
   /\ REq(RSumSeq(b), ROne)
   /\ \A a \in Idx(q) : REq(RSumSeq([i \in Idx(b) |-> RMul(b[i], RInt(ps[i][a]))]), RInt(q[a]))
SimplexPick_Fail(e, T) ==
   LET cor(c) == [i \in Idx(Cells(T)[c]) |-> e.coarse[Cells(T)[c][i]]]
   IN CASE Raised(e) -> {"PickRaised"}
        [] Len(e.cell) # Len(e.pts) \/ Len(e.bary) # Len(e.pts) -> {"PickCounts"}
        [] \E j \in Idx(e.pts) : e.cell[j] \notin 1..Count(T, T.n) -> {"PickIndex"}
        [] \E j \in Idx(e.pts) : ~REq(RSumSeq(e.bary[j]), ROne) -> {"BarycentricSum"}
        [] \E j \in Idx(e.pts) : ~Combination(e.bary[j], cor(e.cell[j]), e.pts[j]) -> {"PickContainsPoint"}
        [] OTHER -> {}
Dist2(p, q) == LET d == VSub(p, q) IN Dot(d, d)
SimplexDual_Fail(e, T) ==
   CASE Raised(e) -> {"PickRaised"}
     [] Len(e.vertex) # Len(e.pts) -> {"PickCounts"}
     [] \E j \in Idx(e.pts) : \E v \in 1..Count(T, 0) : Dist2(e.coarse[v], e.pts[j]) < Dist2(e.coarse[e.vertex[j]], e.pts[j]) -> {"PickNearestVertex"}
     [] OTHER -> {}
\* e.centres[k+1][i] : D * circumcentre, verified; e.corners[j]: vertices of the picked piece of the
\* public fundamental subdivision, numbered as the elements of T, dimension by dimension
CentresOK(e, T) == \A k \in 0..T.n : \A i \in 1..Count(T, k) : CircumOK(<<e.D, e.centres[k + 1][i]>>, CornersAt(T, e.coarse, k, i))
IsFlag(T, f) == f[T.n + 1] \in 1..Count(T, T.n) /\ \A d \in 1..T.n : f[d] \in RowsOf(T.B[d].cols[f[d + 1]])
SimplexFund_Fail(e, T) ==
   LET own(v) == OwnerAt(T, AllDims(T), v)
       place(v) == e.centres[own(v)[1] + 1][own(v)[2]]
   IN CASE Raised(e) -> {"PickRaised"}
        [] ~CentresOK(e, T) -> {"ElementPosition"}
        [] Len(e.domain) # Len(e.pts) \/ Len(e.bary) # Len(e.pts) \/ Len(e.corners) # Len(e.pts) -> {"PickCounts"}
        [] \E j \in Idx(e.pts) : ~IsFlag(T, e.domain[j]) -> {"DomainIsFlag"}
        [] \E j \in Idx(e.pts) : {own(v) : v \in Rng(e.corners[j])} # {<<d, e.domain[j][d + 1]>> : d \in 0..T.n} -> {"DomainMatchesIndex"}
        [] \E j \in Idx(e.pts) : ~Combination(e.bary[j], [i \in Idx(e.corners[j]) |-> place(e.corners[j][i])], VScale(e.D, e.pts[j])) -> {"PickContainsPoint"}
        [] OTHER -> {}
\* barycentric coordinates times the volume: replace corner i by the point
Weights(ps, q) ==
   LET n == Len(ps) - 1
       vol(x) == Det([i \in 1..n |-> VSub(x[i + 1], x[1])])
       all == vol(ps)
   IN [i \in Idx(ps) |-> Sign(all) * vol([ps EXCEPT ![i] = q])]
SimplexSample0_Fail(e, T) ==
   LET cor(c) == [i \in Idx(Cells(T)[c]) |-> e.coarse[Cells(T)[c][i]]]
       w(q) == LET c == CHOOSE c \in 1..Count(T, T.n) : \A i \in Idx(Cells(T)[c]) : Weights(cor(c), q)[i] >= 0 IN <<c, Weights(cor(c), q)>>
       want(q) == LET x == w(q) IN RNorm(SumSeq([i \in Idx(x[2]) |-> x[2][i] * e.f[Cells(T)[x[1]][i]]]), SumSeq(x[2]))
   IN CASE Raised(e) -> {"SampleRaised"}
        [] Len(e.out) # Len(e.pts) -> {"SampleCounts"}
        [] \E j \in Idx(e.pts) : ~REq(e.out[j], want(e.pts[j])) -> {"SampleLinear"}
        [] OTHER -> {}
\* plain averaging, or any averaging (e.plain = FALSE): then only points whose value is determined
SimplexSampleDual_Fail(e, T) ==
   LET N == T.n
       F == FaceTable(T)
       place(f) == [d \in 1..(N + 1) |-> e.centres[d][f[d]]]
       flags == Flags(T)
       want(q) == LET f == CHOOSE f \in flags : \A x \in Rng(Weights(place(f), q)) : x >= 0
                      w == Weights(place(f), q)
                  IN RMul(RSumSeq([d \in 1..(N + 1) |-> RMul(DualValues(T, F, e.bfacets, e.f, d - 1, f[d], 1), RInt(w[d]))]), <<1, SumSeq(w)>>)
       centre(q) == {c \in 1..Count(T, N) : e.centres[N + 1][c] = q}
       same == Cardinality({e.f[i][1] : i \in Idx(e.f)}) = 1
       lo == CHOOSE x \in {e.f[i][1] : i \in Idx(e.f)} : \A i \in Idx(e.f) : x <= e.f[i][1]
       hi == CHOOSE x \in {e.f[i][1] : i \in Idx(e.f)} : \A i \in Idx(e.f) : x >= e.f[i][1]
   IN CASE Raised(e) -> {"SampleRaised"}
        [] ~CentresOK(e, T) -> {"ElementPosition"}
        [] Len(e.out) # Len(e.pts) -> {"SampleCounts"}
        [] e.plain /\ \E j \in Idx(e.pts) : ~REq(e.out[j], want(VScale(e.D, e.pts[j]))) -> {"SampleDualPiecewiseLinear"}
        [] ~e.plain /\ same /\ \E j \in Idx(e.pts) : ~REq(e.out[j], RInt(e.f[1][1])) -> {"SampleDualConstant"}
        [] ~e.plain /\ \E j \in Idx(e.pts) : \E c \in centre(VScale(e.D, e.pts[j])) : ~REq(e.out[j], RInt(e.f[c][1])) -> {"SampleDualAtCentre"}
        \* a value scaled by 1000 and rounded, for answers that are not rational
        [] Has(e, "scaled") /\ \E j \in Idx(e.pts) : e.scaled[j] < 1000 * lo - 1 \/ e.scaled[j] > 1000 * hi + 1 -> {"SampleDualBetween"}
        [] OTHER -> {}
Sampling_Fail(e, T) ==
   CASE e.op = "gridpick" -> GridPick_Fail(e, T)
     [] e.op = "gridfund" -> GridFund_Fail(e, T)
     [] e.op = "griddual" -> GridDual_Fail(e, T)
     [] e.op = "gridsample0" -> GridSample0_Fail(e, T)
     [] e.op = "gridsampledual" -> GridSampleDual_Fail(e, T)
     [] e.op = "simppick" -> SimplexPick_Fail(e, T)
     [] e.op = "simpdual" -> SimplexDual_Fail(e, T)
     [] e.op = "simpfund" -> SimplexFund_Fail(e, T)
     [] e.op = "simpsample0" -> SimplexSample0_Fail(e, T)
     [] e.op = "simpsampledual" -> SimplexSampleDual_Fail(e, T)
=============================================================================
