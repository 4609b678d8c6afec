------------------------------ MODULE Synthetic ------------------------------
(* The ready-made meshes: what each of them is, as an abstract complex with   *)
(* positions.  Positions are recorded as integers: doubled for grids, ten     *)
(* thousandths for curved shapes; `q` is a coarser rounding for determinants. *)
EXTENDS Tensors

\* number of k-cells of a box of cubes of the given shape
BoxCount(s, k) == SumOver(KSubsets(k, Idx(s)), LAMBDA A: ProdSeq([a \in Idx(s) |-> IF a \in A THEN s[a] ELSE s[a] + 1]))
\* number of boundary facets of the box
BoxFacets(s) == SumOver(Idx(s), LAMBDA a: 2 * ProdSeq([b \in Idx(s) |-> IF a = b THEN 1 ELSE s[b]]))
\* lattice points of the box, and the corners of the unit cell at base p in C order
BoxPoints(s) == {[a \in Idx(s) |-> p[a] - 1] : p \in Positions([a \in Idx(s) |-> s[a] + 1])}
BoxBases(s) == {[a \in Idx(s) |-> p[a] - 1] : p \in Positions(s)}
CellCorners(p) == {[a \in Idx(p) |-> p[a] + b[a]] : b \in [Idx(p) -> 0..1]}
Adjacent(p, q) == SumOver(Idx(p), LAMBDA a: Abs(p[a] - q[a])) = 1

ClosedOriented(T) == LET rows == TopRows(T) IN \A r \in DOMAIN rows : Len(rows[r]) = 2 /\ rows[r][1][2] + rows[r][2][2] = 0
SqDist(a, b) == SumOver(Idx(a), LAMBDA i: (a[i] - b[i]) * (a[i] - b[i]))
SqNorm(a) == SumOver(Idx(a), LAMBDA i: a[i] * a[i])
RECURSIVE IDet(_)
IDet(M) == IF Len(M) = 1 THEN M[1][1]
           ELSE SumOver({j \in Idx(M) : M[1][j] # 0}, LAMBDA j: EvenSign(j - 1) * M[1][j] * IDet([i \in 1..(Len(M) - 1) |-> Omit(M[i + 1], j)]))
\* unit vectors, up to rounding of ten thousandths
Unit4 == 100000000
FinelyUnit(norms) == \A v \in Idx(norms) : Abs(norms[v] - 100000000) <= 2
UnitVectors(pos) == \A v \in Idx(pos) : Abs(SqNorm(pos[v]) - Unit4) <= 40000
\* every top simplex seen from the centre on the same side (small ones up to rounding)
OneSided(T, q, tol) == LET D == [i \in 1..Count(T, T.n) |-> IDet([c \in Idx(Cells(T)[i]) |-> q[Cells(T)[i][c]]])]
                       IN (\A i \in Idx(D) : D[i] > -tol) \/ (\A i \in Idx(D) : D[i] < tol)
EdgeLengths(T, pos) == {SqDist(pos[T.E[2][i][1]], pos[T.E[2][i][2]]) : i \in 1..Count(T, 1)}
AllNear(S, tol) == \A a, b \in S : Abs(a - b) <= tol
Counts(T) == [k \in 1..(T.n + 1) |-> Count(T, k - 1)]
\* how many k-elements hold each d-element
UsesOf(T, d, k) ==
   LET add(acc, c) == [acc EXCEPT ![c] = @ + 1]
       keys == [i \in 1..Count(T, d) |-> VSet(T.E[d + 1][i])]
       cof(c) == {x \in KSubsets(d + 1, VSet(c)) : TRUE}
       fold == FoldLeft(LAMBDA acc, c: FoldSet(LAMBDA x, a: [a EXCEPT ![x] = @ + 1], acc, cof(c)), [x \in Rng(keys) |-> 0], T.E[k + 1])
   IN [i \in Idx(keys) |-> fold[keys[i]]]   \* fold is evaluated once, keys are sets of vertices

GridMade_Fail(e) ==
   LET T == e.topo
       s == e.shape
       at(v) == [a \in Idx(s) |-> (e.pos[v][a] + (IF e.centering THEN s[a] ELSE 0)) \div 2]
       exact(v) == \A a \in Idx(s) : (e.pos[v][a] + (IF e.centering THEN s[a] ELSE 0)) % 2 = 0
   IN CASE T.kind # "cubical" \/ T.n # Len(s) -> {"GridDimension"}
        [] Counts(T) # [k \in 1..(T.n + 1) |-> BoxCount(s, k - 1)] -> {"GridCounts"}
        \* without mirroring the operators are unsigned; which faces bound which cells is still exact
        [] ComplexFailures(T) \ (IF e.mirror THEN {} ELSE {"BoundaryOfBoundaryZero", "InducedSigns"}) # {} -> ComplexFailures(T)
        [] ~(\A v \in Idx(e.pos) : exact(v)) \/ {at(v) : v \in Idx(e.pos)} # BoxPoints(s) -> {"GridPoints"}
        [] {{at(v) : v \in VSet(c)} : c \in Rng(Cells(T))} # {CellCorners(p) : p \in BoxBases(s)} -> {"GridCells"}
        [] \E i \in 1..Count(T, 1) : ~Adjacent(at(T.E[2][i][1]), at(T.E[2][i][2])) -> {"GridEdges"}
        [] e.mirror /\ ~Oriented(T) -> {"GridOriented"}
        [] Cardinality(OnceRows(T)) # BoxFacets(s) -> {"GridBoundary"}
        [] OTHER -> {}
\* squared distances are recorded exactly
SimplexMade_Fail(e) ==
   LET T == e.topo
       n == e.n
   IN CASE T.kind # "simplicial" \/ T.n # n \/ Counts(T) # [k \in 1..(n + 1) |-> Choose(n + 1, k)] -> {"SimplexCounts"}
        [] ComplexFailures(T) # {} -> ComplexFailures(T)
        [] Len(e.sq) # n + 1 \/ e.dim # n -> {"SimplexEmbedding"}
        [] e.equilateral /\ (\E i, j \in Idx(e.sq) : i # j /\ ~REq(e.sq[i][j], RNorm(2 * (n + 1), n))) -> {"EqualDistances"}
        [] e.equilateral /\ (\E i \in Idx(e.norm) : ~REq(e.norm[i], ROne)) -> {"UnitVectors"}
        [] ~e.equilateral /\ {e.pos[i] : i \in Idx(e.pos)} # {[a \in 1..n |-> IF a = b THEN 1 ELSE 0] : b \in 0..n} -> {"CanonicalCorners"}
        [] OTHER -> {}
CircleMade_Fail(e) ==
   LET T == e.topo
       m == 4 * Pow(2, e.k)
       cross == [i \in 1..Count(T, 1) |-> LET a == e.q[T.E[2][i][1]] b == e.q[T.E[2][i][2]] IN a[1] * b[2] - a[2] * b[1]]
   IN CASE T.kind # "cubical" \/ Counts(T) # <<m, m>> -> {"CircleCounts"}
        [] ComplexFailures(T) # {} -> ComplexFailures(T)
        [] ~ClosedOriented(T) \/ Cardinality(Components(T)) # 1 -> {"ClosedLoop"}
        [] ~UnitVectors(e.pos) \/ ~FinelyUnit(e.norms) \/ Cardinality(Rng(e.pos)) # m -> {"UnitVectors"}
        [] ~AllNear(EdgeLengths(T, e.pos), 40000) -> {"EvenlySpaced"}
        \* going round once: twice the enclosed area is between the square and the disc
        [] ~(Abs(SumSeq(cross)) \in 3990000..6300000) -> {"OnceAround"}
        [] OTHER -> {}
\* positions in ten thousandths of a unit, radius and length given in hundredths
CylinderMade_Fail(e) ==
   LET T == e.topo
       n == Pow(2, e.k)
       m == 4 * n
       R == e.radius
       radial(v) == e.pos[v][2] * e.pos[v][2] + e.pos[v][3] * e.pos[v][3]
       rows == TopRows(T)
       rim == {r \in DOMAIN rows : Len(rows[r]) = 1}
       axial == {e.pos[v][1] : v \in Idx(e.pos)}
   IN CASE T.kind # "cubical" \/ Counts(T) # <<(n + 1) * m, (n + 1) * m + n * m, n * m>> -> {"TubeCounts"}
        [] ComplexFailures(T) # {} -> ComplexFailures(T)
        [] ~Oriented(T) \/ Cardinality(Components(T)) # 1 -> {"TubeOriented"}
        [] Cardinality(rim) # 2 * m -> {"TubeRims"}
        [] \E v \in Idx(e.pos) : Abs(radial(v) - R * R) > 4 * R + 4 -> {"TubeRadius"}
        [] Cardinality(axial) # n + 1 \/ Max(axial) - Min(axial) \notin (e.length - 2)..(e.length + 2) -> {"TubeLength"}
        [] \E r \in rim : \E c \in Rng(T.E[2][r]) : e.pos[c][1] \notin {Max(axial), Min(axial)} -> {"TubeRims"}
        [] OTHER -> {}
SphereCounts(e) ==
   CASE e.how = "icosphere" -> LET f == Pow(4, e.r) IN <<10 * f + 2, 30 * f, 20 * f>>
     [] e.how = "hexacosichoron" -> <<120, 720, 1200, 600>>
     [] e.how = "crosspolytope" -> [k \in 1..e.r |-> Pow(2, k) * Choose(e.r, k)]
     [] e.how = "spread" -> <<e.r, 3 * e.r - 6, 2 * e.r - 4>>
SphereMade_Fail(e) ==
   LET T == e.topo IN
   CASE T.kind # "simplicial" \/ Counts(T) # SphereCounts(e) -> {"SphereCounts"}
     [] ComplexFailures(T) # {} -> ComplexFailures(T)
     [] ~ClosedOriented(T) -> {"ClosedOriented"}
     [] Cardinality(Components(T)) # 1 -> {"OnePiece"}
     [] ~UnitVectors(e.pos) \/ ~FinelyUnit(e.norms) -> {"UnitVectors"}
     [] Cardinality(Rng(e.pos)) # Len(e.pos) -> {"DistinctVertices"}
     [] ~OneSided(T, e.q, e.tol) -> {"CoversOnce"}
     [] e.how = "icosphere" /\ (LET u == TLCEval(UsesOf(T, 0, 2))
                               IN Rng(u) \ {5, 6} # {} \/ Cardinality({v \in Idx(u) : u[v] = 5}) # 12) -> {"VertexDegrees"}
     [] e.how = "hexacosichoron" /\ (Rng(UsesOf(T, 0, 3)) # {20} \/ Rng(UsesOf(T, 1, 3)) # {5}) -> {"VertexDegrees"}
     [] (e.how = "hexacosichoron" \/ (e.how = "icosphere" /\ e.r = 0)) /\ ~AllNear(EdgeLengths(T, e.pos), 40000) -> {"EqualEdges"}
     [] e.how = "crosspolytope" /\ Rng(e.pos) # {[a \in 1..e.r |-> IF a = x[1] THEN 10000 * x[2] ELSE 0] : x \in (1..e.r) \X {1, -1}} -> {"AxisVertices"}
     [] OTHER -> {}
\* q holds positions in thousandths
DelaunayMade_Fail(e) ==
   LET T == e.topo
       area == [i \in 1..Count(T, 2) |-> LET c == Cells(T)[i] a == e.q[c[1]] b == e.q[c[2]] d == e.q[c[3]]
                                         IN (b[1] - a[1]) * (d[2] - a[2]) - (b[2] - a[2]) * (d[1] - a[1])]
       border == {v \in Idx(e.q) : \E x \in 1..2 : e.q[v][x] \in {0, 1000}}
       lattice == {p \in (0..e.density) \X (0..e.density) : p[1] \in {0, e.density} \/ p[2] \in {0, e.density}}
       round(x) == (2000 * x + e.density) \div (2 * e.density)
       rows == TopRows(T)
       rim == {r \in DOMAIN rows : Len(rows[r]) = 1}
   IN CASE T.kind # "simplicial" \/ T.n # 2 -> {"TriangulationDimension"}
        [] ComplexFailures(T) # {} -> ComplexFailures(T)
        [] ~Oriented(T) \/ Cardinality(Components(T)) # 1 \/ (\E r \in DOMAIN rows : Len(rows[r]) > 2) -> {"TriangulationOriented"}
        [] Euler(T) # 1 -> {"TriangulatesDisc"}
        [] \E v \in Idx(e.q) : e.q[v][1] \notin 0..1000 \/ e.q[v][2] \notin 0..1000 -> {"InsideBox"}
        [] Cardinality(border) # 4 * e.density
           \/ ~(\A p \in lattice : \E v \in border : Abs(e.q[v][1] - round(p[1])) <= 1 /\ Abs(e.q[v][2] - round(p[2])) <= 1) -> {"BorderPoints"}
        [] Cardinality(rim) # 4 * e.density \/ UNION {Rng(T.E[2][r]) : r \in rim} # border -> {"BorderEdges"}
        [] ~((\A i \in Idx(area) : area[i] > -2000) \/ (\A i \in Idx(area) : area[i] < 2000)) -> {"CoversOnce"}
        [] Abs(Abs(SumSeq(area)) - 2000000) > 2000 -> {"CoversBox"}
        [] OTHER -> {}
Made_Fail(e) ==
   CASE Raised(e) -> {"ConstructorRaised"}
     [] e.mesh = "grid" -> GridMade_Fail(e)
     [] e.mesh = "simplex" -> SimplexMade_Fail(e)
     [] e.mesh = "circle" -> CircleMade_Fail(e)
     [] e.mesh = "cylinder" -> CylinderMade_Fail(e)
     [] e.mesh = "sphere" -> SphereMade_Fail(e)
     [] e.mesh = "delaunay" -> DelaunayMade_Fail(e)
=============================================================================
