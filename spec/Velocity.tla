------------------------------- MODULE Velocity -------------------------------
(* Flow on dual meshes: from the flux along every dual edge to a velocity in    *)
(* every cell.  The flux along a dual edge, times the measure of its facet over *)
(* its length, is what passes the facet; the velocity of a cell is the one that *)
(* comes closest to what passes its facets.                                     *)
EXTENDS Sphere

\* normal of a facet with corners ps, seen from the cell with the point o; as long as (n - 1)! times its measure
FacetNormal(ps, o) ==
   LET raw == CASE Len(o) = 1 -> <<1>>
                [] Len(o) = 2 -> <<ps[1][2] - ps[2][2], ps[2][1] - ps[1][1]>>
                [] OTHER -> Cross3(VSub(ps[2], ps[1]), VSub(ps[3], ps[1]))
   IN VScale(Sign(Dot(raw, VSub(o, ps[1]))), raw)
\* of an axis-aligned facet of a cube with the corners cs
CubeNormal(ps, cs) ==
   LET axes == Idx(cs[1])
       width(qs, a) == Max({q[a] : q \in Rng(qs)}) - Min({q[a] : q \in Rng(qs)})
       flat == CHOOSE a \in axes : width(ps, a) = 0
       area == FoldSet(LAMBDA a, acc: acc * width(cs, a), 1, axes \ {flat})
   IN [a \in axes |-> IF a # flat THEN 0 ELSE IF ps[1][a] = Min({q[a] : q \in Rng(cs)}) THEN area ELSE 0 - area]
\* <<D, x>> . A
StepAlong(p, q, A) == RSub(RNorm(Dot(p[2], A), p[1]), RNorm(Dot(q[2], A), q[1]))
InwardNormals(T, pos) ==
   [c \in 1..Count(T, T.n) |->
      LET cell == Cells(T)[c] IN
      [r \in RowsOf(T.B[T.n].cols[c]) |->
         LET ps == [j \in Idx(T.E[T.n][r]) |-> pos[T.E[T.n][r][j]]]
         IN IF T.kind = "cubical" THEN CubeNormal(ps, [j \in Idx(cell) |-> pos[cell[j]]])
            ELSE FacetNormal(ps, pos[CHOOSE v \in Rng(cell) : v \notin Rng(T.E[T.n][r])])]]
\* what the flux along the dual edges amounts to through each facet of cell c, inwards
Inflow(T, c, r, through) == Coef(T.B[T.n].cols[c], r) * through[r]
Velocity_Fail(e, T) ==
   LET n == T.n
       cellsOf == 1..Count(T, n)
       facets == 1..Count(T, n - 1)
       pos == e.coarse
       A == TLCEval(InwardNormals(T, pos))
       around(r) == {c \in cellsOf : r \in DOMAIN A[c]}
       \* length of the dual edge, times that of the normal
       reach == TLCEval([r \in facets |-> RSumSet({<<c, 0>> : c \in around(r)}, LAMBDA q: StepAlong(e.centres[2][q[1]], e.centres[1][r], A[q[1]][r]))])
       size2(r) == LET c == CHOOSE x \in around(r) : TRUE IN Dot(A[c][r], A[c][r])
       share(j, r) == RMul(e.flux[j][r], RMul(<<size2(r), 1>>, RInv(reach[r])))
       through == TLCEval([j \in Idx(e.flux) |-> [r \in facets |-> share(j, r)]])
       net(j, c) == SumOver(DOMAIN A[c], LAMBDA r: Inflow(T, c, r, [x \in facets |-> through[j][x][1]]))
       into(j, c, r) == Inflow(T, c, r, [x \in facets |-> through[j][x][1]])
       sizeOf(v) == SumOver(Idx(v), LAMBDA a: Abs(v[a]))
       near(x, y, v) == Abs(x - y) <= sizeOf(v) + 2
       fits(j, c) == LET V == e.out[j][c] IN
          IF T.kind = "cubical"
          THEN \A r \in DOMAIN A[c] : \E s \in DOMAIN A[c] : s # r /\ VAdd(A[c][r], A[c][s]) = VScale(0, A[c][r])
                  /\ near(2 * Dot(A[c][r], V), 10000 * (into(j, c, r) - into(j, c, s)), VScale(2, A[c][r]))
          ELSE \A r \in DOMAIN A[c] : near((n + 1) * Dot(A[c][r], V), 10000 * ((n + 1) * into(j, c, r) - net(j, c)), VScale(n + 1, A[c][r]))
   IN CASE Raised(e) -> {"VelocityRaised"}
        [] Len(e.centres[2]) # Count(T, n) \/ Len(e.centres[1]) # Count(T, n - 1) -> {"OnePositionPerElement"}
        [] T.kind = "cubical" /\ (\E k \in 1..2 : \E i \in Idx(e.centres[k]) : ~MeanOK(e.centres[k][i], CornersAt(T, pos, n - 2 + k, i))) -> {"CentreIsMean"}
        [] T.kind # "cubical" /\ (\E k \in 1..2 : \E i \in Idx(e.centres[k]) : ~PowerOK(e.centres[k][i], CornersAt(T, pos, n - 2 + k, i), WeightsAt(T, e.weights, n - 2 + k, i))) -> {"EqualPower"}
        [] \E r \in facets : reach[r][1] <= 0 -> {}
        [] \E j \in Idx(e.flux) : \E r \in facets : through[j][r][2] # 1 -> {}
        [] Len(e.out) # Len(e.flux) \/ (\E j \in Idx(e.out) : Len(e.out[j]) # e.vertices) -> {"OneVelocityPerDualVertex"}
        [] \E j \in Idx(e.out) : \E c \in cellsOf : Len(e.out[j][c]) # Len(pos[1]) -> {"VelocityComponents"}
        [] \E j \in Idx(e.out) : \E c \in (Count(T, n) + 1)..e.vertices : \E a \in Idx(pos[1]) : e.out[j][c][a] # 0 -> {"StillOnTheBoundary"}
        [] \E j \in Idx(e.out) : \E c \in cellsOf : ~fits(j, c) -> {"ClosestVelocity"}
        [] Has(e, "u") /\ (\E j \in Idx(e.out) : \E c \in cellsOf : \E a \in Idx(pos[1]) : Abs(e.out[j][c][a] - 10000 * e.u[j][a]) > 1) -> {"UniformFlow"}
        [] OTHER -> {}
\* refused where some dual edge runs backwards
NoVelocity_Fail(e, T) == IF Raised(e) /\ e.raised = "AssertionError" THEN {} ELSE {"RefusesBackwardDualEdges"}
VelocityOps == {"velocity", "novelocity"}
VelocityOp_Fail(e, T) == IF e.op = "velocity" THEN Velocity_Fail(e, T) ELSE NoVelocity_Fail(e, T)
=============================================================================
