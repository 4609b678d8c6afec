-------------------------------- MODULE Sphere --------------------------------
(* Spherical complexes.  Vertices are integer vectors of one common norm R,    *)
(* standing for their directions.  Centres are directions too; which simplex   *)
(* holds a direction is a question of signs of determinants.  Angles and areas *)
(* are judged as unit complex numbers in fixed point (Unity stands for 1): the   *)
(* areas of triangles compose by multiplication.                               *)
EXTENDS Weighted

Unity == 10000
RECURSIVE Root(_, _)
Root(x, g) == LET h == (g + x \div g) \div 2 IN IF h >= g THEN g ELSE Root(x, h)
ISqrt(x) == IF x <= 0 THEN 0 ELSE Root(x, Min2(x, 46340))
Largest(v) == LET s == {Abs(v[i]) : i \in Idx(v)} IN CHOOSE x \in s : \A y \in s : y <= x
\* v scaled so that its largest entry is near m
Fitted(v, m) == LET b == Largest(v)
                    f == IF b = 0 THEN 1 ELSE m \div b
                    d == b \div m + 1
                IN TLCEval(IF f > 0 THEN [i \in Idx(v) |-> f * v[i]] ELSE [i \in Idx(v) |-> Sign(v[i]) * (Abs(v[i]) \div d)])
(* ---- unit complex numbers ---- *)
UnitC(x, y) == LET v == Fitted(<<x, y>>, 30000) r == ISqrt(Dot(v, v)) IN <<(v[1] * Unity) \div r, (v[2] * Unity) \div r>>
Turned(u, w) == UnitC((u[1] * w[1] - u[2] * w[2]) \div 4, (u[1] * w[2] + u[2] * w[1]) \div 4)
TurnedAll(us) == FoldLeft(Turned, <<Unity, 0>>, us)
SameAngle(u, w, tol) == Abs(u[1] - w[1]) <= tol /\ Abs(u[2] - w[2]) <= tol
\* got = <<value, its cosine, its sine>>, times Unity: an angle in (0, limit)
AngleOK(got, u, limit, tol) == got[1] > 0 /\ got[1] <= limit /\ SameAngle(<<got[2], got[3]>>, u, tol)
HalfTurn == 31416
FullTurn == 62832

(* ---- directions ---- *)
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
SDet(m) == IF Len(m) = 3 /\ Len(m[1]) = 3 THEN Dot(m[1], Cross3(m[2], m[3])) ELSE Det(m)
Facing(n, a) == IF Dot(n, a) < 0 THEN VScale(0 - 1, n) ELSE n
Normal3(p) == Facing(Cross3(VSub(p[2], p[1]), VSub(p[3], p[1])), p[1])
\* elements all of whose edges are equally long may be centred by their mean
Equilateral(p) == Cardinality({Dot(VSub(p[i], p[j]), VSub(p[i], p[j])) : <<i, j>> \in {q \in (Idx(p) \X Idx(p)) : q[1] < q[2]}}) <= 1
CentreKnown(p) == Len(p) <= 2 \/ (Len(p) = 3 /\ Len(p[1]) = 3) \/ Equilateral(p)
Heading(p) == IF Len(p) = 3 /\ Len(p[1]) = 3 THEN Normal3(p) ELSE VSum(p)
\* P is Unity times the unit vector along h, rounded
Along(P, h) ==
   /\ Len(P) = Len(h)
   /\ \A i, j \in Idx(h) : Abs(P[i] * h[j] - P[j] * h[i]) <= Abs(h[i]) + Abs(h[j]) + 1
   /\ Dot(P, h) > 0
   /\ Abs(Dot(P, P) - Unity * Unity) <= 4 * Unity
HeadingAt(T, pos, k, i) == Heading(CornersAt(T, pos, k, i))
\* direction q within the cone of ps: weights, all of one sign
Cone(ps, q) == LET all == Sign(SDet(ps)) IN [i \in Idx(ps) |-> all * SDet([ps EXCEPT ![i] = q])]
InCone(w) == \A i \in Idx(w) : w[i] >= 0
NearRatio(got, n, d, tol) == LET v == Fitted(<<n, d>>, 200000) IN v[2] # 0 /\ Abs(got - (v[1] * Unity) \div v[2]) <= tol

(* ---- centres, judgments ---- *)
SphereCentres_Fail(e, T) ==
   CASE Raised(e) -> {"PositionsRaised"}
     [] Len(e.centres) # T.n + 1 -> {"PositionLists"}
     [] \E k \in 0..T.n : Len(e.centres[k + 1]) # Count(T, k) -> {"OnePositionPerElement"}
     [] \E k \in 0..T.n : \E i \in 1..Count(T, k) : CentreKnown(CornersAt(T, e.coarse, k, i)) /\ ~Along(e.centres[k + 1][i], HeadingAt(T, e.coarse, k, i)) -> {"CentreDirection"}
     [] OTHER -> {}
\* how far beyond the plane of triangle c the far corner of its neighbour is: negative where convex
SphNeighbours(T) == {q \in ((1..Count(T, 2)) \X (1..Count(T, 2))) : q[1] < q[2] /\ RowsOf(T.B[2].cols[q[1]]) \cap RowsOf(T.B[2].cols[q[2]]) # {}}
FarCorner(T, c, d) == CHOOSE v \in Rng(Cells(T)[d]) : v \notin Rng(Cells(T)[c])
Beyond(T, pos, q) == LET c == q[1] n == Normal3(CornersAt(T, pos, 2, c)) IN 0 - Dot(n, VSub(pos[FarCorner(T, c, q[2])], pos[Cells(T)[c][1]]))
CornerDot(p, i) == LET j == (i % 3) + 1 k == (j % 3) + 1 IN Dot(VSub(p[j], p[i]), VSub(p[k], p[i]))
\* the angle over an edge of the boundary
Apex(T, pos, r) == LET c == CHOOSE x \in 1..Count(T, 2) : r \in RowsOf(T.B[2].cols[x])
                       i == CHOOSE x \in 1..3 : Cells(T)[c][x] \notin Rng(T.E[2][r])
                   IN CornerDot(CornersAt(T, pos, 2, c), i)
SphereJudge_Fail(e, T) ==
   CASE Raised(e) -> {"JudgmentRaised"}
     [] ~Says(e.wellcentred, {CornerDot(CornersAt(T, e.coarse, 2, c), i) : c \in 1..Count(T, 2), i \in 1..3}) -> {"WellCentredJudgment"}
     [] ~Says(e.delaunay, {Beyond(T, e.coarse, q) : q \in SphNeighbours(T)} \cup {Apex(T, e.coarse, r) : r \in OnceRows(T)}) -> {"PairwiseDelaunayJudgment"}
     [] OTHER -> {}

(* ---- measures ---- *)
Norm2(h) == Dot(h, h)
\* <<s, s * |h|>> with enough digits, h not too long
SLength(h) == LET n2 == Norm2(h)
                 s == IF n2 < 200 THEN 1000 ELSE IF n2 < 2000 THEN 500 ELSE IF n2 < 200000 THEN 80 ELSE IF n2 < 2000000 THEN 25 ELSE IF n2 < 20000000 THEN 8 ELSE 1
             IN <<s, ISqrt(n2 * s * s)>>
\* half the area of the triangle a, b, c of norm R
HalfArea(a, b, c, R) == UnitC(R * R * R + R * (Dot(a, b) + Dot(b, c) + Dot(c, a)), Abs(SDet(<<a, b, c>>)))
\* half the area of the triangle of the direction n with a and b of norm R
HalfAreaAt(n, a, b, R) == LET l == SLength(n) IN UnitC(l[2] * (R * R + Dot(a, b)) + l[1] * R * (Dot(n, a) + Dot(n, b)), l[1] * Abs(SDet(<<n, a, b>>)))
\* the part of triangle p (well centred) closest to its corner i
Kite(p, i, R) == LET j == (i % 3) + 1 k == (j % 3) + 1 n == Normal3(p)
                 IN Turned(HalfAreaAt(n, p[i], p[j], R), HalfAreaAt(n, p[i], p[k], R))
UnitV(h) == LET v == Fitted(h, 20000) r == ISqrt(Dot(v, v)) IN [i \in Idx(v) |-> (v[i] * Unity) \div r]
\* the angle between two directions
AngleOf(g, h) == LET u == UnitV(g) w == UnitV(h)
                     c == Dot(u, w) \div Unity
                     d == VSub(u, w)
                     s == VAdd(u, w)
                 IN Turned(UnitC(ISqrt(Dot(s, s)), ISqrt(Dot(d, d))), UnitC(ISqrt(Dot(s, s)), ISqrt(Dot(d, d))))
SphereMetric_Fail(e, T) ==
   LET N == T.n
       pos == e.coarse
       R == e.R
       p(c) == CornersAt(T, pos, 2, c)
       inc(m, i, c) == i \in RowsOf(T.B[m].cols[c])
       \* k R^2 times the sine of the angle with cosine x / R^2
       k == 44000 \div (R * R)
       sine(x) == ISqrt(k * k * (R * R - x) * (R * R + x))
       len(i) == LET q == CornersAt(T, pos, 1, i) x == Dot(q[1], q[2]) IN UnitC(k * x, sine(x))
       halflen(i) == LET q == CornersAt(T, pos, 1, i) x == Dot(q[1], q[2]) IN UnitC(k * (R * R + x), sine(x))
       area(c) == LET h == HalfArea(p(c)[1], p(c)[2], p(c)[3], R) IN Turned(h, h)
       at(v) == {c \in 1..Count(T, 2) : v \in Rng(Cells(T)[c])}
       spot(c, v) == CHOOSE i \in 1..3 : Cells(T)[c][i] = v
       kites == IF N = 2 THEN TLCEval([c \in 1..Count(T, 2) |-> [i \in 1..3 |-> Kite(p(c), i, R)]]) ELSE << >>
       around(v) == TurnedAll(LET s == SetToSeq(at(v)) IN [j \in Idx(s) |-> kites[s[j]][spot(s[j], v)]])
       across(i) == TurnedAll(LET s == SetToSeq({c \in 1..Count(T, 2) : inc(2, i, c)}) IN [j \in Idx(s) |-> AngleOf(HeadingAt(T, pos, 1, i), Normal3(p(s[j])))])
       halves(v, es) == TurnedAll(LET s == SetToSeq({i \in es : v \in Rng(T.E[2][i])}) IN [j \in Idx(s) |-> halflen(s[j])])
       once == OnceRows(T)
   IN CASE Raised(e) -> {"MetricRaised"}
        [] \E m \in 0..N : Len(e.primal[m + 1]) # Count(T, m) \/ Len(e.dual[m + 1]) # Count(T, N - m) -> {"MetricCounts"}
        [] Rng(e.primal[1]) # {Unity} \/ Rng(e.dual[1]) # {Unity} -> {"PointMeasure"}
        [] \E i \in 1..Count(T, 1) : ~AngleOK(e.primal[2][i], len(i), HalfTurn, 6) -> {"ArcLength"}
        [] N = 1 /\ \E v \in 1..Count(T, 0) : ~AngleOK(e.dual[2][v], halves(v, 1..Count(T, 1)), FullTurn, 8) -> {"DualArc"}
        [] N = 1 -> {}
        [] \E c \in 1..Count(T, 2) : ~AngleOK(e.primal[3][c], area(c), FullTurn, 6) -> {"TriangleArea"}
        [] \E i \in 1..Count(T, 1) : ~AngleOK(e.dual[2][i], across(i), FullTurn, 12) -> {"DualEdgeLength"}
        [] \E v \in 1..Count(T, 0) : ~AngleOK(e.dual[3][v], around(v), FullTurn, 25) -> {"DualCellArea"}
        [] once = {} /\ e.whole /\ (Abs(e.totals[1] - 2 * FullTurn) > 20 \/ Abs(e.totals[2] - 2 * FullTurn) > 20) -> {"WholeSphere"}
        [] Abs(e.totals[1] - e.totals[2]) > 2 -> {"PrimalAndDualAgree"}
        [] Has(e, "closed") /\ (Len(e.closed) # Len(e.bidx)
              \/ \E j \in Idx(e.bidx) : ~AngleOK(e.closed[j], halves(e.bidx[j], once), FullTurn, 8)) -> {"ClosedDualBoundary"}
        [] OTHER -> {}

(* ---- the shapes of elements, whatever their angles: e.cuts are crossings of the great circles of pairs of edges ---- *)
SphereShapes_Fail(e, T) ==
   LET q(k, i) == CornersAt(T, e.coarse, k, i)
       k == 44000 \div (e.R * e.R)
       len(i) == LET x == Dot(q(1, i)[1], q(1, i)[2]) IN UnitC(k * x, ISqrt(k * k * (e.R * e.R - x) * (e.R * e.R + x)))
       area(c) == LET h == HalfArea(q(2, c)[1], q(2, c)[2], q(2, c)[3], e.R) IN Turned(h, h)
       cut(j) == LET a == q(1, e.pairs[j][1]) b == q(1, e.pairs[j][2]) IN Cross3(Cross3(a[1], a[2]), Cross3(b[1], b[2]))
   IN CASE Raised(e) -> {"ShapesRaised"}
        [] Len(e.arcs) # Count(T, 1) \/ Len(e.areas) # Count(T, 2) \/ Len(e.mids) # Count(T, 1) \/ Len(e.centres) # Count(T, 2) \/ Len(e.cuts) # Len(e.pairs) -> {"ShapeCounts"}
        [] \E i \in 1..Count(T, 1) : ~AngleOK(e.arcs[i], len(i), HalfTurn, 6) -> {"ArcOfCorners"}
        [] \E c \in 1..Count(T, 2) : ~AngleOK(e.areas[c], area(c), FullTurn, 6) -> {"AreaOfCorners"}
        [] \E i \in 1..Count(T, 1) : ~Along(e.mids[i], VSum(q(1, i))) -> {"MiddleOfCorners"}
        [] \E c \in 1..Count(T, 2) : ~Along(e.centres[c], Normal3(q(2, c))) -> {"CentreOfCorners"}
        [] \E j \in Idx(e.pairs) : cut(j) # <<0, 0, 0>> /\ ~Along(e.cuts[j], Fitted(cut(j), 20000)) -> {"CrossingOfCircles"}
        [] OTHER -> {}

(* ---- location and interpolation; e.pts are integer directions ---- *)
ConeCorners(T, pos, c) == [i \in Idx(Cells(T)[c]) |-> pos[Cells(T)[c][i]]]
SpherePick_Fail(e, T) ==
   LET w == TLCEval([j \in Idx(e.pts) |-> IF e.cell[j] \in 1..Count(T, T.n) THEN Cone(ConeCorners(T, e.coarse, e.cell[j]), e.pts[j]) ELSE << >>])
   IN CASE Raised(e) -> {"PickRaised"}
        [] Len(e.cell) # Len(e.pts) \/ Len(e.bary) # Len(e.pts) -> {"PickCounts"}
        [] \E j \in Idx(e.pts) : e.cell[j] \notin 1..Count(T, T.n) -> {"PickIndex"}
        [] \E j \in Idx(e.pts) : ~InCone(w[j]) -> {"PickContainsDirection"}
        [] \E j \in Idx(e.pts) : \E i \in Idx(w[j]) : ~NearRatio(e.bary[j][i], w[j][i], SumSeq(w[j]), 3) -> {"PickCoordinates"}
        [] OTHER -> {}
SphereDual_Fail(e, T) ==
   CASE Raised(e) -> {"PickRaised"}
     [] Len(e.vertex) # Len(e.pts) -> {"PickCounts"}
     [] \E j \in Idx(e.pts) : e.vertex[j] \notin 1..Count(T, 0) -> {"PickIndex"}
     [] \E j \in Idx(e.pts) : \E v \in 1..Count(T, 0) : Dot(e.coarse[v], e.pts[j]) > Dot(e.coarse[e.vertex[j]], e.pts[j]) -> {"PickNearestVertex"}
     [] OTHER -> {}
\* shares of the unit directions along ps in q
Shares(ps, q) == LET w == Fitted(Cone(ps, q), 100000)
                     l == [i \in Idx(ps) |-> LET h == Fitted(ps[i], 20000) IN <<h, ISqrt(Dot(h, h))>>]
                     \* the length of each relative to its largest coordinate, in thousandths
                     r == TLCEval([i \in Idx(ps) |-> (l[i][2] * 1000) \div Largest(l[i][1])])
                     m == Fitted([i \in Idx(ps) |-> w[i] * Largest(ps[i])], 200000)
                     x == TLCEval([i \in Idx(ps) |-> m[i] * r[i]])
                     t == SumSeq(x)
                 IN [i \in Idx(ps) |-> IF t < Unity THEN 0 ELSE x[i] \div (t \div Unity)]
SphereFund_Fail(e, T) ==
   LET own(v) == OwnerAt(T, AllDims(T), v)
       place(v) == HeadingAt(T, e.coarse, own(v)[1], own(v)[2])
       ps(j) == [i \in Idx(e.corners[j]) |-> place(e.corners[j][i])]
   IN CASE Raised(e) -> IF e.uneven /\ e.raised = "AssertionError" THEN {} ELSE {"PickRaised"}
        [] Len(e.domain) # Len(e.pts) \/ Len(e.bary) # Len(e.pts) \/ Len(e.corners) # Len(e.pts) -> {"PickCounts"}
        [] \E j \in Idx(e.pts) : ~IsFlag(T, e.domain[j]) -> {"DomainIsFlag"}
        [] \E j \in Idx(e.pts) : {own(v) : v \in Rng(e.corners[j])} # {<<d, e.domain[j][d + 1]>> : d \in 0..T.n} -> {"DomainMatchesIndex"}
        [] \E j \in Idx(e.pts) : ~InCone(Cone(ps(j), e.pts[j])) -> {"PickContainsDirection"}
        [] \E j \in Idx(e.pts) : \E i \in Idx(e.bary[j]) : Abs(e.bary[j][i] - Shares(ps(j), e.pts[j])[i]) > 40 -> {"PickCoordinates"}
        [] OTHER -> {}
SphereSample0_Fail(e, T) ==
   LET cell(q) == CHOOSE c \in 1..Count(T, T.n) : InCone(Cone(ConeCorners(T, e.coarse, c), q))
       ok(j) == LET q == e.pts[j] c == cell(q) w == Cone(ConeCorners(T, e.coarse, c), q)
                IN \A m \in Idx(e.f[1]) : NearRatio(e.out[j][m], SumSeq([i \in Idx(w) |-> w[i] * e.f[Cells(T)[c][i]][m]]), SumSeq(w), 9)
   IN CASE Raised(e) -> {"SampleRaised"}
        [] Len(e.out) # Len(e.pts) \/ (\E j \in Idx(e.out) : Len(e.out[j]) # Len(e.f[1])) -> {"SampleCounts"}
        [] \E j \in Idx(e.pts) : ~ok(j) -> {"SampleLinear"}
        [] OTHER -> {}
\* closed meshes; e.flags lists the picked domain of each direction (judged by SphereFund)
SphereSampleDual_Fail(e, T) ==
   LET N == T.n
       F == FaceTable(T)
       flag(q) == CHOOSE f \in Flags(T) : InCone(Cone([d \in 1..(N + 1) |-> HeadingAt(T, e.coarse, d - 1, f[d])], q))
       want(q, m) == LET f == flag(q) s == Shares([d \in 1..(N + 1) |-> HeadingAt(T, e.coarse, d - 1, f[d])], q)
                     IN SumSeq([d \in 1..(N + 1) |-> LET v == DualValues(T, F, << >>, e.f, d - 1, f[d], m) IN (s[d] * v[1]) \div v[2]])
       values == {e.f[i][1] : i \in Idx(e.f)}
       lo == CHOOSE x \in values : \A y \in values : x <= y
       hi == CHOOSE x \in values : \A y \in values : x >= y
   IN CASE Raised(e) -> IF e.uneven /\ e.raised = "AssertionError" THEN {} ELSE {"SampleRaised"}
        [] Len(e.out) # Len(e.pts) + Count(T, N) -> {"SampleCounts"}
        \* the last answers are those at the centres of the cells
        [] \E c \in 1..Count(T, N) : \E m \in Idx(e.f[1]) : Abs(e.out[Len(e.pts) + c][m] - Unity * e.f[c][m]) > 2 -> {"SampleDualAtCentre"}
        [] e.plain /\ \E j \in Idx(e.pts) : \E m \in Idx(e.f[1]) : Abs(e.out[j][m] - want(e.pts[j], m)) > 400 -> {"SampleDualPiecewiseLinear"}
        [] \E j \in Idx(e.pts) : e.out[j][1] < Unity * lo - 2 \/ e.out[j][1] > Unity * hi + 2 -> {"SampleDualBetween"}
        [] OTHER -> {}

(* ---- refinement, subsets and casts keep the sphere ---- *)
SphereRefine_Fail(e, T) ==
   LET own == Owners(T, e.dims)
   IN CASE Raised(e) -> {"RefineRaised"}
        [] e.radius # e.parent_radius -> {"RadiusKept"}
        [] Len(e.fine) # Len(own) -> {"OnePositionPerVertex"}
        [] \E v \in Idx(own) : CentreKnown(CornersAt(T, e.coarse, own[v][1], own[v][2])) /\ ~Along(e.fine[v], HeadingAt(T, e.coarse, own[v][1], own[v][2])) -> {"VertexAtElementPosition"}
        [] Has(e, "totals") /\ Abs(e.totals[1] - e.totals[2]) > 10 -> {"AreaKept"}
        [] OTHER -> {}
SphereKept_Fail(e, T) ==
   CASE Raised(e) -> {"CastRaised"}
     [] e.cells # Cells(T) -> {"CellsKept"}
     [] e.fine # e.coarse -> {"VerticesKept"}
     [] e.weights # e.were -> {"WeightsKept"}
     [] Has(e, "radius") /\ e.radius # e.parent_radius -> {"RadiusKept"}
     [] OTHER -> {}
SphereBoundary_Fail(e, T) ==
   CASE Raised(e) -> {"BoundaryRaised"}
     [] OnceRows(T) = {} -> IF e.none THEN {} ELSE {"ClosedHasNoBoundary"}
     [] e.none -> {"BoundaryMissing"}
     [] e.radius # e.parent_radius -> {"RadiusKept"}
     [] Len(e.fine) # Len(e.parent_idx) \/ (\E v \in Idx(e.fine) : e.fine[v] # e.coarse[e.parent_idx[v]]) -> {"KeepsPositions"}
     [] Len(e.weights) # (IF e.were = << >> THEN 0 ELSE Len(e.fine)) \/ (\E v \in Idx(e.weights) : e.weights[v] # e.were[e.parent_idx[v]]) -> {"WeightsKept"}
     [] {{e.parent_idx[e.cells[i][c]] : c \in Idx(e.cells[i])} : i \in Idx(e.cells)} # {Rng(T.E[T.n][r]) : r \in OnceRows(T)} -> {"BoundaryCells"}
     [] OTHER -> {}
SphereOps == {"sphcentres", "sphjudge", "sphmetric", "sphshapes", "sphpick", "sphdual", "sphfund", "sphsample0", "sphsampledual", "sphrefine", "sphkept", "sphboundary"}
Sphere_Fail(e, T) ==
   CASE e.op = "sphcentres" -> SphereCentres_Fail(e, T)
     [] e.op = "sphjudge" -> SphereJudge_Fail(e, T)
     [] e.op = "sphmetric" -> SphereMetric_Fail(e, T)
     [] e.op = "sphshapes" -> SphereShapes_Fail(e, T)
     [] e.op = "sphpick" -> SpherePick_Fail(e, T)
     [] e.op = "sphdual" -> SphereDual_Fail(e, T)
     [] e.op = "sphfund" -> SphereFund_Fail(e, T)
     [] e.op = "sphsample0" -> SphereSample0_Fail(e, T)
     [] e.op = "sphsampledual" -> SphereSampleDual_Fail(e, T)
     [] e.op = "sphrefine" -> SphereRefine_Fail(e, T)
     [] e.op = "sphkept" -> SphereKept_Fail(e, T)
     [] e.op = "sphboundary" -> SphereBoundary_Fail(e, T)
=============================================================================
