-------------------------------- MODULE Refine --------------------------------
(* Subdivisions and products.  A refinement R of a mesh T has one vertex per  *)
(* parent element of certain dimensions; Owner(T, dims, v) names it.          *)
EXTENDS TopoOps

\* vertices of a refinement: all elements of the listed dimensions, dimension by dimension
OwnerCount(T, dims) == SumSeq([i \in Idx(dims) |-> Count(T, dims[i])])
RECURSIVE OwnerAt(_, _, _)
OwnerAt(T, dims, v) == IF v <= Count(T, Head(dims)) THEN <<Head(dims), v>>
                       ELSE OwnerAt(T, Tail(dims), v - Count(T, Head(dims)))
Owners(T, dims) == [v \in 1..OwnerCount(T, dims) |-> OwnerAt(T, dims, v)]
AllDims(T) == [i \in 1..(T.n + 1) |-> i - 1]
\* index of an owner
OwnerIdx(T, dims, d, i) ==
   LET p == CHOOSE q \in Idx(dims) : dims[q] = d
   IN SumSeq([j \in 1..(p - 1) |-> Count(T, dims[j])]) + i

\* faces: for every element, the indices of its j-dimensional faces
FaceTable(T) ==
   LET RECURSIVE rows(_)
       rows(k) == \* [d \in 0..k |-> [i |-> set]] for k-elements, all lower tables too
         IF k = 0 THEN [x \in {0} |-> [i \in 1..Count(T, 0) |-> [d \in {0} |-> {i}]]]
         ELSE LET low == rows(k - 1)
                  mine == [i \in 1..Count(T, k) |->
                     LET fs == RowsOf(T.B[k].cols[i])
                     IN [d \in 0..k |-> IF d = k THEN {i} ELSE UNION {low[k - 1][f][d] : f \in fs}]]
              IN [x \in 0..k |-> IF x = k THEN mine ELSE low[x]]
   IN rows(T.n)
IsFacetOf(T, k, f, c) == f \in RowsOf(T.B[k].cols[c])     \* f is a facet of the k-element c

---------------------------------------------------------------------------
(* expected cells, as sets of vertices of the refinement *)
RECURSIVE FlagsBelow(_, _, _)
FlagsBelow(T, k, i) ==        \* flags e_0 < .. < e_k = i as sequences of element indices
   IF k = 0 THEN {<<i>>} ELSE UNION {{Append(f, i) : f \in FlagsBelow(T, k - 1, r)} : r \in RowsOf(T.B[k].cols[i])}
Flags(T) == UNION {FlagsBelow(T, T.n, i) : i \in 1..Count(T, T.n)}
FlagCount(T) == Count(T, T.n) * (IF T.kind = "simplicial" THEN Fact(T.n + 1) ELSE Pow(2, T.n) * Fact(T.n))
FlagCell(T, f) == {OwnerIdx(T, AllDims(T), d, f[d + 1]) : d \in 0..T.n}
\* corner cubes: faces of cell c that contain vertex v
CornerCells(T) ==
   LET F == FaceTable(T)
       cell(c, v) == UNION {{OwnerIdx(T, AllDims(T), d, i) : i \in {j \in F[T.n][c][d] : v \in F[d][j][0]}} : d \in 0..T.n}
   IN {cell(c, v) : <<c, v>> \in UNION {{<<c, v>> : v \in Rng(Cells(T)[c])} : c \in 1..Count(T, T.n)}}
ConeCells(T) == UNION {{(s \cup {Count(T, 0) + c}) : s \in FacetSets(T.kind, Cells(T)[c], T.n)} : c \in 1..Count(T, T.n)}
LoopCells(T) ==    \* triangles
   LET m(e) == Count(T, 0) + e
       edges(c) == RowsOf(T.B[2].cols[c])
       corner(c, v) == {v} \cup {m(e) : e \in {x \in edges(c) : v \in Rng(T.E[2][x])}}
   IN UNION {{ {m(e) : e \in edges(c)} } \cup {corner(c, v) : v \in Rng(Cells(T)[c])} : c \in 1..Count(T, 2)}
QuadTris(T) ==
   UNION {{(Rng(T.E[2][e]) \cup {Count(T, 0) + c}) : e \in RowsOf(T.B[2].cols[c])} : c \in 1..Count(T, 2)}

Dims(how, T) == CASE how \in {"fundamental", "cubical"} -> AllDims(T)
                  [] how \in {"cone", "quadtri"} -> <<0, T.n>>
                  [] how = "loop" -> <<0, 1>>
Wanted(how, T) == CASE how = "fundamental" -> {FlagCell(T, f) : f \in Flags(T)}
                    [] how = "cubical" -> CornerCells(T)
                    [] how = "cone" -> ConeCells(T)
                    [] how = "quadtri" -> QuadTris(T)
                    [] how = "loop" -> LoopCells(T)
WantedCount(how, T) ==
   Count(T, T.n) * (CASE how = "fundamental" -> (IF T.kind = "simplicial" THEN Fact(T.n + 1) ELSE Pow(2, T.n) * Fact(T.n))
                      [] how = "cubical" -> (IF T.kind = "simplicial" THEN T.n + 1 ELSE Pow(2, T.n))
                      [] how = "cone" -> T.n + 1
                      [] how \in {"quadtri", "loop"} -> 4)
\* a corner cube is laid out along the incidence relation: walking an axis away from the
\* parent vertex goes from an element to one having it as a facet
CornerLayout(T, c) ==
   LET own == [j \in Idx(c) |-> OwnerAt(T, AllDims(T), c[j])]
       n == T.n
       p0 == CHOOSE j \in 0..(Len(c) - 1) : own[j + 1][1] = 0
       weight(j) == SumOver(1..n, LAMBDA a: IF Bit(j, a, n) # Bit(p0, a, n) THEN 1 ELSE 0)
   IN /\ \E j \in Idx(c) : own[j][1] = 0
      /\ \A j \in 0..(Len(c) - 1) : own[j + 1][1] = weight(j)
      /\ \A j \in 0..(Len(c) - 1) : \A a \in 1..n :
            Bit(j, a, n) = Bit(p0, a, n) =>
               LET i == IF Bit(j, a, n) = 0 THEN j + Pow(2, n - a) ELSE j - Pow(2, n - a)
               IN IsFacetOf(T, own[i + 1][1], own[j + 1][2], own[i + 1][2])

\* unoriented flags: pieces sharing a facet are mirror images of each other
Alternating(R) == LET rows == TopRows(R) IN \A r \in DOMAIN rows : Len(rows[r]) = 2 => rows[r][1][2] = rows[r][2][2]
Refine_Fail(e, T) ==
   LET R == e.topo
       dims == Dims(e.how, T)
       kindR == IF e.how = "cubical" THEN "cubical" ELSE "simplicial"
   IN CASE Raised(e) -> {"SubdivisionRaised"}
        [] R.n # T.n \/ R.kind # kindR -> {"RefinementKind"}
        [] Count(R, 0) # OwnerCount(T, dims) -> {"OneVertexPerElement"}
        [] ComplexFailures(R) # {} -> {"Refined" \o c : c \in ComplexFailures(R)}
        [] Count(R, R.n) # WantedCount(e.how, T) -> {"PieceCount"}
        [] VSets(R, R.n) # Wanted(e.how, T) -> {"ExactPieces"}
        [] e.how = "cubical" /\ \E i \in 1..Count(R, R.n) : ~CornerLayout(T, Cells(R)[i]) -> {"CornerCubeLayout"}
        [] Euler(R) # Euler(T) -> {"EulerKept"}
        [] e.keeps /\ Oriented(T) /\ AtMostTwo(T) /\ ~Oriented(R) -> {"OrientationKept"}
        [] ~e.keeps /\ AtMostTwo(T) /\ Orientable(T) /\ ~Orientable(R) -> {"OrientabilityKept"}
        [] (OnceRows(T) = {}) # (OnceRows(R) = {}) -> {"BoundaryKept"}
        [] Cardinality(Components(R)) # Cardinality(Components(T)) -> {"ComponentsKept"}
        [] e.alternating /\ AtMostTwo(T) /\ ~Alternating(R) -> {"AlternatingOrientation"}
        [] OTHER -> {}
\* the table of fundamental domains: every row a flag, every flag once
Domains_Fail(e, T) ==
   CASE Raised(e) -> {"DomainsRaised"}
     [] Len(e.domains) # FlagCount(T) -> {"DomainCount"}
     [] Rng(e.domains) # Flags(T) -> {"DomainsAreFlags"}
     [] OTHER -> {}

---------------------------------------------------------------------------
(* transfers: fine x coarse operators, tr[k+1] relating k-elements *)
Ones(M) == \A j \in 1..M.c : \A q \in Rng(M.cols[j]) : q[2] = 1
Relates(M, want) ==   \* want: set of <<fine, coarse>>
   /\ MatOK(M)
   /\ \A j \in 1..M.c : Len(M.cols[j]) = Cardinality(RowsOf(M.cols[j]))
   /\ Ones(M)
   /\ {<<q[1], q[2]>> : q \in EntrySet(M)} = want
\* fine k-elements lying inside coarse k-elements, for each refinement rule
Inside(how, T, R, k) ==
   LET own == Owners(T, Dims(how, T))
       F == FaceTable(T)
       vs(i) == R.E[k + 1][i]
   IN CASE how = "cubical" ->       \* spans from a coarse vertex to the coarse k-element
             {<<i, x[2]>> : <<i, x>> \in {<<i, own[v]>> : <<i, v>> \in UNION {{<<i, v>> : v \in Rng(vs(i))} :
                    i \in {j \in 1..Count(R, k) : \E w \in Rng(vs(j)) : own[w][1] = 0}}} \cap
                 (1..Count(R, k)) \X {<<k, c>> : c \in 1..Count(T, k)}}
        [] how = "loop" /\ k = 0 -> {<<v, v>> : v \in 1..Count(T, 0)}
        [] how = "loop" /\ k = 1 -> {<<i, own[v][2]>> : <<i, v>> \in UNION {{<<i, v>> : v \in {w \in Rng(vs(i)) : own[w][1] = 1}} :
                    i \in {j \in 1..Count(R, 1) : \E w \in Rng(vs(j)) : own[w][1] = 0}}}
        [] how = "loop" /\ k = 2 ->
             LET edges(c) == RowsOf(T.B[2].cols[c])
                 parents(i) == LET es == {own[v][2] : v \in {w \in Rng(vs(i)) : own[w][1] = 1}}
                                   cs == {own[v][2] : v \in {w \in Rng(vs(i)) : own[w][1] = 0}}
                               IN {c \in 1..Count(T, 2) : es \subseteq edges(c) /\ cs \subseteq Rng(Cells(T)[c])}
             IN UNION {{<<i, c>> : c \in parents(i)} : i \in 1..Count(R, 2)}
        [] how = "quadtri" /\ k = 2 ->
             UNION {{<<i, own[v][2]>> : v \in {w \in Rng(vs(i)) : own[w][1] = 2}} : i \in 1..Count(R, 2)}
Transfers_Fail(e, T, R) ==
   LET ks == IF e.how = "quadtri" THEN <<2>> ELSE [k \in 1..(T.n + 1) |-> k - 1]
   IN CASE Raised(e) -> {"TransferRaised"}
        [] Len(e.tr) # Len(ks) -> {"TransferCount"}
        [] \E i \in Idx(ks) : e.tr[i].r # Count(R, ks[i]) \/ e.tr[i].c # Count(T, ks[i]) -> {"TransferShape"}
        [] \E i \in Idx(ks) : ~Relates(e.tr[i], Inside(e.how, T, R, ks[i])) -> {"TransferRelatesChildren"}
        \* boundary of the transferred chain = transferred boundary (direct variants inherit directions)
        [] e.chainmap /\ \E k \in 1..T.n :
             \E j \in 1..Count(T, k) :
                LET left == ProdCol(R.B[k], e.tr[k + 1], j)
                    right == ProdCol(e.tr[k], T.B[k], j)
                    at(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
                IN \E x \in DOMAIN left \cup DOMAIN right : at(left, x) # at(right, x) -> {"TransferCommutesWithBoundary"}
        [] OTHER -> {}
\* transfers of the dual: dual k-elements stand for primal (n-k)-elements, followed by those that stand for
\* the (n-k-1)-elements of the boundary, in the order of the whole; each kind relates as what it stands for
Place(S, x) == Cardinality({y \in S : y <= x})
DualInside(how, T, R, i) ==
   IF i = 0 THEN Inside(how, T, R, 0)
   ELSE LET bT == Faces(T, OnceRows(T))[i - 1]
            bR == Faces(R, OnceRows(R))[i - 1]
        IN Inside(how, T, R, i) \cup
           {<<Count(R, i) + Place(bR, q[1]), Count(T, i) + Place(bT, q[2])>> :
               q \in Inside(how, T, R, i - 1) \cap (bR \X bT)}
DualTransfers_Fail(e, T, R) ==
   LET nb(X, i) == IF i = 0 THEN 0 ELSE Cardinality(Faces(X, OnceRows(X))[i - 1])
   IN CASE ~AtMostTwo(T) -> {}          \* the dual closes meshes of which facets lie between two cells at most
        [] Raised(e) -> {"DualTransferRaised"}
        [] Len(e.tr) # T.n + 1 -> {"DualTransferCount"}
        [] \E k \in 0..T.n : LET i == T.n - k IN
              e.tr[k + 1].r # Count(R, i) + nb(R, i) \/ e.tr[k + 1].c # Count(T, i) + nb(T, i) -> {"DualTransferShape"}
        [] \E k \in 0..T.n : ~Relates(e.tr[k + 1], DualInside(e.how, T, R, T.n - k)) -> {"DualTransferRelatesChildren"}
        [] OTHER -> {}
\* rows: quad vertices to refined vertices: identity on vertices, plain average on quads
QuadVertexTransfer_Fail(e, T) ==
   CASE Raised(e) -> {"TransferRaised"}
     [] e.A.r # Count(T, 0) + Count(T, 2) \/ e.A.c # Count(T, 0) -> {"TransferShape"}
     [] \E v \in 1..Count(T, 0) : ~RowAverages(e.A.rows[v], {v}) -> {"TransferKeepsVertices"}
     [] \E q \in 1..Count(T, 2) : ~RowAverages(e.A.rows[Count(T, 0) + q], Rng(Cells(T)[q])) -> {"TransferAveragesQuads"}
     [] OTHER -> {}

---------------------------------------------------------------------------
(* products of cubical meshes *)
PairV(A, a, b) == a + (b - 1) * Count(A, 0)
ProductTuple(A, B, c, d) ==
   LET m == Len(d) IN [j \in 1..(Len(c) * m) |-> PairV(A, c[((j - 1) \div m) + 1], d[((j - 1) % m) + 1])]
Product_Fail(e, A, B) ==
   LET P == e.topo
       want == UNION {{ProductTuple(A, B, Cells(A)[i], Cells(B)[j]) : i \in 1..Count(A, A.n)} : j \in 1..Count(B, B.n)}
       rep == [s \in {Rng(t) : t \in want} |-> CHOOSE t \in want : Rng(t) = s]
       closed(T) == T.n = 0 \/ OnceRows(T) = {}
   IN CASE Raised(e) -> {"ProductRaised"}
        [] P.n # A.n + B.n \/ P.kind # "cubical" -> {"ProductDimension"}
        [] Count(P, 0) # Count(A, 0) * Count(B, 0) -> {"ProductVertices"}
        [] \E k \in 0..P.n : Count(P, k) # SumOver({i \in 0..A.n : k - i \in 0..B.n}, LAMBDA i: Count(A, i) * Count(B, k - i)) -> {"ProductElementCounts"}
        [] ComplexFailures(P) # {} -> {"Product" \o c : c \in ComplexFailures(P)}
        [] VSets(P, P.n) # DOMAIN rep -> {"ProductCells"}
        [] \E i \in 1..Count(P, P.n) : CubeRel(Cells(P)[i], rep[Rng(Cells(P)[i])], P.n) = 0 -> {"ProductCellLayout"}
        [] Oriented(A) /\ Oriented(B) /\ AtMostTwo(A) /\ AtMostTwo(B) /\ ~Oriented(P) -> {"ProductOriented"}
        [] (OnceRows(P) = {}) # (closed(A) /\ closed(B)) -> {"ProductClosed"}
        [] Euler(P) # Euler(A) * Euler(B) -> {"ProductEuler"}
        [] OTHER -> {}
\* the once-covered facets of a product are products of a once-covered facet with a cell
ProductBoundary(A, B, P) ==
   LET once(T) == IF T.n = 0 THEN {} ELSE OnceRows(T)
       pairset(s, t) == {PairV(A, a, b) : a \in s, b \in t}
   IN {VSet(P.E[P.n][r]) : r \in OnceRows(P)} =
        {pairset(VSet(A.E[A.n][r]), VSet(Cells(B)[j])) : r \in once(A), j \in 1..Count(B, B.n)}
        \cup {pairset(VSet(Cells(A)[i]), VSet(B.E[B.n][r])) : i \in 1..Count(A, A.n), r \in once(B)}

=============================================================================
