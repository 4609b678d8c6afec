-------------------------------- MODULE TopoOps --------------------------------
(* Actions on topologies: construction, orientation, boundary, dual, subsets, *)
(* connectivity, averaging.  Each X_Fail(e, heap) returns the set of failing  *)
(* clause names of event e; {} means the event is a legal step.               *)
EXTENDS Complexes

Raised(e) == Has(e, "raised")

---------------------------------------------------------------------------
(* construction *)
\* Do two presentations of one cubical face disagree on its corner arrangement?
RECURSIVE CubesAgree(_, _)
CubesAgree(cs, k) ==        \* cs : sequence of corner tuples of k-cubes
   IF k <= 1 THEN TRUE
   ELSE LET fs == FoldLeft(LAMBDA acc, c: acc \cup CubeFaces(c, k), {}, cs)
            keys == {Rng(f) : f \in fs}
            rep == [s \in keys |-> CHOOSE f \in fs : Rng(f) = s]
        IN /\ \A f \in fs : CubeRel(f, rep[Rng(f)], k - 1) # 0
           /\ CubesAgree(SetToSeq({rep[s] : s \in keys}), k - 1)
Make_Fail(e) ==
   LET used == UNION {Rng(c) : c \in Rng(e.cells)}
       \* the vertices are numbered from the first on, without gaps
       agree == used = 1..Cardinality(used) /\ (e.kind = "simplicial" \/ CubesAgree(e.cells, e.n))
   IN CASE Raised(e) -> IF agree THEN {"RejectedValidCells"}
                        ELSE IF e.raised = "ValueError" THEN {} ELSE {"WrongError"}
        [] ~agree -> {"AcceptedInvalidCells"}
        [] e.topo.n # e.n \/ e.topo.kind # e.kind -> {"Dimension"}
        [] Cells(e.topo) # e.cells -> {"KeepsTopCells"}
        [] OTHER -> MeshFailures(e.topo)
MakeInvalid_Fail(e) == IF Raised(e) /\ e.raised = "ValueError" THEN {} ELSE {"AcceptedInvalidCells"}

\* incidence: inc[k][1] = vertices of k-elements, inc[k][2] = facets of k-elements (k >= 1), row-wise
Inc_Fail(e, T) ==
   CASE Raised(e) -> {"IncidenceRaised"}
     [] Len(e.verts) # T.n + 1 \/ Len(e.facets) # T.n -> {"IncidenceShape"}
     [] \E k \in 0..T.n : e.verts[k + 1] # T.E[k + 1] -> {"IncidenceVertices"}
     [] \E k \in 0..T.n : e.corners[k + 1] # T.E[k + 1] -> {"Corners"}
     [] \E k \in 1..T.n : Len(e.facets[k]) # Count(T, k) -> {"IncidenceShape"}
     [] \E k \in 1..T.n : \E i \in 1..Count(T, k) :
           Len(e.facets[k][i]) # Len(T.B[k].cols[i]) \/ Rng(e.facets[k][i]) # RowsOf(T.B[k].cols[i]) -> {"IncidenceFacets"}
     [] OTHER -> {}
\* the library's own chain check: raises iff some consecutive pair does not compose to zero
ChainCheck_Fail(e) ==
   LET good == \A k \in 1..(Len(e.mats) - 1) : ProdZero(e.mats[k], e.mats[k + 1])
   IN CASE good /\ Raised(e) -> {"ChainCheckRejectsValid"}
        [] ~good /\ ~Raised(e) -> {"ChainCheckAcceptsBroken"}
        [] OTHER -> {}

---------------------------------------------------------------------------
(* orientation *)
IsOriented_Fail(e, T) ==
   CASE Raised(e) -> {"IsOrientedRaised"}
     [] e.value # Oriented(T) -> {"OrientedIffSignsCancel"}
     [] OTHER -> {}
\* parity relative to neighbours: e.parity[i] \in {0,1}
RelParity_Fail(e, T) ==
   LET rows == TopRows(T)
       sg(i) == IF e.parity[i] = 1 THEN 1 ELSE -1
   IN CASE Raised(e) -> IF ~Orientable(T) /\ e.raised = "ValueError" THEN {} ELSE {"ParityRaised"}
        [] Len(e.parity) # Count(T, T.n) -> {"ParityLength"}
        [] \E r \in DOMAIN rows : Len(rows[r]) = 2 /\
              sg(rows[r][1][1]) * rows[r][1][2] + sg(rows[r][2][1]) * rows[r][2][2] # 0 -> {"ParityRelations"}
        [] OTHER -> {}
SymmetricCell(kind, f, d, k) == Rng(f) = Rng(d) /\ (kind = "simplicial" \/ CubeRel(f, d, k) # 0)
Fix_Fail(e, T) ==
   CASE Raised(e) -> IF Orientable(T) THEN {"RepairFailsOnOrientable"}
                     ELSE IF e.raised = "ValueError" THEN {} ELSE {"WrongError"}
     [] ~Orientable(T) -> {"RepairAcceptsNonOrientable"}
     [] MeshFailures(e.topo) # {} -> MeshFailures(e.topo)
     [] e.topo.n # T.n \/ Count(e.topo, T.n) # Count(T, T.n) -> {"RepairKeepsElements"}
     [] \E i \in 1..Count(T, T.n) : ~SymmetricCell(T.kind, Cells(e.topo)[i], Cells(T)[i], T.n) -> {"RepairKeepsElements"}
     [] ~Oriented(e.topo) -> {"RepairOrients"}
     [] ~e.says -> {"RepairedReportsOriented"}
     [] OTHER -> {}

---------------------------------------------------------------------------
(* boundary *)
\* P maps elements of sub to elements of T with the same vertices, via P[1] on vertices
MapsOnto(sub, P, T) ==
   /\ Len(P) >= sub.n + 1
   /\ \A k \in 0..sub.n : /\ Len(P[k + 1]) = Count(sub, k)
                          /\ Rng(P[k + 1]) \subseteq 1..Count(T, k)
                          /\ Distinct(P[k + 1])
   /\ \A k \in 0..sub.n : \A i \in 1..Count(sub, k) :
         {P[1][v] : v \in Rng(sub.E[k + 1][i])} = Rng(T.E[k + 1][P[k + 1][i]])
\* every facet of a boundary is covered evenly, with cancelling signs: the top chain is a cycle
CycleTop(T) == LET rows == TopRows(T) IN \A r \in DOMAIN rows :
                  Len(rows[r]) % 2 = 0 /\ SumOver(Idx(rows[r]), LAMBDA i: rows[r][i][2]) = 0
ClosedTop(T) == T.n = 0 \/ LET rows == TopRows(T) IN \A r \in DOMAIN rows : Len(rows[r]) = 2
Boundary_Fail(e, T) ==
   LET once == OnceRows(T)
       D == e.topo
       rows == TopRows(T)
   IN CASE Raised(e) -> IF Oriented(T) THEN {"BoundaryRaised"}
                        ELSE IF e.raised = "ValueError" THEN {} ELSE {"WrongError"}
        [] ~Oriented(T) -> {"BoundaryOfUnoriented"}
        [] e.closed # (once = {}) -> {"ClosedIffNoBoundary"}
        [] e.none # (once = {}) -> {"AbsentIffClosed"}
        [] e.none -> {}
        [] D.n # T.n - 1 \/ D.kind # T.kind -> {"BoundaryDimension"}
        [] ComplexFailures(D) # {} -> {"Boundary" \o c : c \in ComplexFailures(D)}
        [] ~MapsOnto(D, e.parent_idx, T) -> {"ParentIndexNamesSameElement"}
        [] Rng(e.parent_idx[T.n]) # once -> {"BoundaryIsOnceCovered"}
        [] D.n > 0 /\ ~CycleTop(D) -> {"BoundaryClosed"}
        [] D.n > 0 /\ ~Oriented(D) -> {"BoundaryOriented"}
        \* stored orientation of each boundary cell equals that of its parent facet: the boundary's
        \* own operators are then the restriction of the parent's
        [] \E k \in 1..D.n : \E i \in 1..Count(D, k) :
              {<<e.parent_idx[k][q[1]], q[2]>> : q \in Rng(D.B[k].cols[i])}
                 \notin {Rng(T.B[k].cols[e.parent_idx[k + 1][i]]),
                         {<<q[1], -q[2]>> : q \in Rng(T.B[k].cols[e.parent_idx[k + 1][i]])}} -> {"BoundaryOperatorRestricts"}
        [] D.n > 0 /\ ~( \A g \in Components(D) : Cardinality({rows[e.parent_idx[T.n][i]][1][2] : i \in g}) = 1) -> {"InducedOrientationUniform"}
        [] OTHER -> {}
\* selectors: sel.interior[k], sel.boundary[k] as sequences of selected indices in order
Faces(T, once) ==     \* all faces (per dimension, as sets of element indices) of the facets in `once`
   LET RECURSIVE down(_, _)
       down(k, S) == IF k = 0 THEN [d \in {0} |-> S]
                     ELSE LET below == down(k - 1, UNION {RowsOf(T.B[k].cols[i]) : i \in S})
                          IN [d \in 0..k |-> IF d = k THEN S ELSE below[d]]
   IN down(T.n - 1, once)
IsSelector(M, S, n) ==  \* M selects exactly indices S (ascending) from n
   /\ M.c = n /\ M.r = Cardinality(S)
   /\ \A j \in 1..n : IF j \in S THEN Len(M.cols[j]) = 1 /\ M.cols[j][1][2] = 1
                      ELSE M.cols[j] = <<>>
   /\ UNION {RowsOf(M.cols[j]) : j \in S} = 1..M.r
   /\ \A i, j \in S : i < j => M.cols[i][1][1] < M.cols[j][1][1]
Selectors_Fail(e, T) ==
   LET once == OnceRows(T)
       bnd == IF once = {} THEN [d \in 0..(T.n - 1) |-> {}] ELSE Faces(T, once)
       B(k) == IF k = T.n THEN {} ELSE bnd[k]
   IN CASE Raised(e) -> {"SelectorsRaised"}
        [] Len(e.interior) # T.n + 1 \/ Len(e.boundary) # T.n + 1 -> {"SelectorCount"}
        [] \E k \in 0..T.n : ~IsSelector(e.boundary[k + 1], B(k), Count(T, k)) -> {"BoundarySelector"}
        [] \E k \in 0..T.n : ~IsSelector(e.interior[k + 1], (1..Count(T, k)) \ B(k), Count(T, k)) -> {"InteriorSelector"}
        [] OTHER -> {}

---------------------------------------------------------------------------
(* dual: e.M[k] boundary operator from dual k-elements to dual (k-1)-elements  *)
(* as presented ([r,c]=[dual k-1, dual k]); e.M2 with dual boundary stripped.  *)
\* no (n-2)-face lies in more than two boundary facets
ManifoldBoundary(T, once) ==
   \A f \in UNION {RowsOf(T.B[T.n - 1].cols[r]) : r \in once} :
      Cardinality({r \in once : f \in RowsOf(T.B[T.n - 1].cols[r])}) = 2
Dual_Fail(e, T) ==
   LET n == T.n
       once == OnceRows(T)
       bnd == IF once = {} THEN [d \in 0..(n - 1) |-> {}] ELSE Faces(T, once)
       nb(k) == IF k < 0 THEN 0 ELSE Cardinality(bnd[k])          \* boundary elements of dimension k
       full(k) == Count(T, n - k) + (IF k = n THEN 0 ELSE nb(n - k - 1))
       \* the part of M[k] whose column is a dual element with a partner, and row too
       inner(M, k) == {q \in EntrySet(M) : q[1] <= Count(T, n - k + 1) /\ q[2] <= Count(T, n - k)}
   IN CASE Raised(e) -> {"DualRaised"}
        [] Len(e.M) # n \/ Len(e.n_elements) # n + 1 -> {"DualShape"}
        [] \E k \in 0..n : e.n_elements[k + 1] # full(k) -> {"DualElementCount"}
        [] \E k \in 1..n : e.M[k].r # full(k - 1) \/ e.M[k].c # full(k) \/ ~MatOK(e.M[k]) -> {"DualShape"}
        [] \E k \in 1..n : inner(e.M[k], k) # TransposeEntries(T.B[n - k + 1]) -> {"DualIsTranspose"}
        [] \E k \in 1..(n - 1) : ~ProdZero(e.M[k], e.M[k + 1]) -> {"DualBoundaryOfBoundaryZero"}
        [] (once = {} \/ n = 1 \/ ManifoldBoundary(T, once)) /\ \E j \in 1..e.M[1].c : Len(e.M[1].cols[j]) # 2 \/ e.M[1].cols[j][1][2] + e.M[1].cols[j][2][2] # 0 -> {"DualEdgeTwoEnds"}
        [] Len(e.M2) # n -> {"StrippedShape"}
        [] \E k \in 1..n : LET stripped == {q \in EntrySet(e.M[k]) : q[2] <= Count(T, n - k)}
                           IN e.M2[k].r # full(k - 1) \/ e.M2[k].c # Count(T, n - k) \/ EntrySet(e.M2[k]) # stripped -> {"StrippedOperators"}
        [] Len(e.sel_i) # n + 1 \/ Len(e.sel_b) # n + 1 -> {"DualSelectors"}
        [] \E k \in 0..n : ~IsSelector(e.sel_i[k + 1], 1..Count(T, k), full(n - k)) -> {"DualSelectors"}
        [] \E k \in 0..n : ~IsSelector(e.sel_b[k + 1], (Count(T, k) + 1)..full(n - k), full(n - k)) -> {"DualSelectors"}
        [] OTHER -> {}

---------------------------------------------------------------------------
(* subsets, labels, components, regions *)
Chosen(chain) == {i \in Idx(chain) : chain[i] # 0}
\* the top cells of sub, mapped back, are the chosen cells in order, corner by corner
Subset_Fail(e, T) ==
   LET want == SetToSortSeq(Chosen(e.chain), LAMBDA a, b: a < b)
       D == e.topo
   IN CASE Len(e.chain) # Count(T, T.n) -> IF Raised(e) /\ e.raised = "ValueError" THEN {} ELSE {"WrongLengthSelectionAccepted"}
        [] Raised(e) -> {"SubsetRaised"}
        [] D.n # T.n \/ D.kind # T.kind -> {"SubsetDimension"}
        [] MeshFailures(D) # {} -> {"Subset" \o c : c \in MeshFailures(D)}
        [] ~MapsOnto(D, e.parent_idx, T) -> {"ParentIndexNamesSameElement"}
        [] e.parent_idx[T.n + 1] # want -> {"SubsetElementsInOrder"}
        [] \E i \in Idx(want) : [c \in Idx(Cells(D)[i]) |-> e.parent_idx[1][Cells(D)[i][c]]] # Cells(T)[want[i]] -> {"SubsetKeepsCells"}
        [] OTHER -> {}
\* partition of 1..n induced by labels
Parts(labels) == {{i \in Idx(labels) : labels[i] = x} : x \in Rng(labels)}
Connect_Fail(e, T) ==
   LET comps == Components(T)
       sizes == [i \in Idx(e.split) |-> Count(e.split[i].topo, T.n)]
   IN CASE Raised(e) -> {"ConnectivityRaised"}
        [] Len(e.labels) # Count(T, T.n) \/ Parts(e.labels) # comps -> {"LabelIffLinked"}
        [] e.n_components # Cardinality(comps) -> {"ComponentCount"}
        [] e.connected # (Cardinality(comps) = 1) -> {"IsConnected"}
        [] Len(e.split) # Cardinality(comps) -> {"SplitCount"}
        [] \E i \in Idx(e.split) : MeshFailures(e.split[i].topo) # {} -> {"SplitIsComplex"}
        [] \E i \in Idx(e.split) : ~MapsOnto(e.split[i].topo, e.split[i].parent_idx, T) -> {"ParentIndexNamesSameElement"}
        [] {Rng(e.split[i].parent_idx[T.n + 1]) : i \in Idx(e.split)} # comps -> {"SplitPartitions"}
        [] \E i \in 1..(Len(sizes) - 1) : sizes[i] < sizes[i + 1] -> {"SplitSorted"}
        [] OTHER -> {}
Regions_Fail(e, T) ==
   LET rows == TopRows(T)
       star(v) == {i \in 1..Count(T, T.n) : v \in Rng(Cells(T)[i])}
       region(v) == Cardinality(Groups(star(v), Neighbours(star(v), rows)))
   IN CASE Raised(e) -> {"RegionsRaised"}
        [] Len(e.regions) # Count(T, 0) -> {"RegionsShape"}
        [] \E v \in 1..Count(T, 0) : e.regions[v] # region(v) -> {"RegionsPerVertex"}
        [] e.manifold # (\A v \in 1..Count(T, 0) : e.regions[v] = 1) -> {"ManifoldIffOneRegionEach"}
        [] OTHER -> {}

---------------------------------------------------------------------------
(* averaging operators, row-wise rational: rows[i] = sequence of <<col, num, den>> *)
RowAverages(row, S) == /\ Len(row) = Cardinality(S)
                       /\ {row[i][1] : i \in Idx(row)} = S
                       /\ \A i \in Idx(row) : row[i][2] * Cardinality(S) = row[i][3]
RowConvex(row, S) == /\ {row[i][1] : i \in Idx(row)} = S
                     /\ \A i \in Idx(row) : row[i][2] > 0 /\ row[i][3] > 0
                     /\ RSumSeq([i \in Idx(row) |-> <<row[i][2], row[i][3]>>]) = <<1, 1>>
\* containment sets computed downwards from the top cells
TopStars(T) ==   \* star[k+1][i] = top elements containing k-element i, through the incidence relation
   LET RECURSIVE down(_)
       down(k) == IF k = T.n THEN [d \in {k} |-> [i \in 1..Count(T, k) |-> {i}]]
                  ELSE LET up == down(k + 1)
                           add(acc, j) == FoldLeft(LAMBDA a, q: [a EXCEPT ![q[1]] = @ \cup up[k + 1][j]], acc, T.B[k + 1].cols[j])
                           here == FoldLeft(add, [i \in 1..Count(T, k) |-> {}], [j \in 1..Count(T, k + 1) |-> j])
                       IN [d \in k..T.n |-> IF d = k THEN here ELSE up[d]]
   IN down(0)
Average_Fail(e, T) ==
   LET stars == TopStars(T)
   IN CASE Raised(e) -> {"AveragingRaised"}
        [] Len(e.A0) # T.n + 1 \/ Len(e.AN) # T.n + 1 \/ Len(e.degree) # T.n + 1 -> {"AveragingShape"}
        [] \E k \in 0..T.n : e.A0[k + 1].r # Count(T, k) \/ e.A0[k + 1].c # Count(T, 0) -> {"AveragingShape"}
        [] \E k \in 0..T.n : e.AN[k + 1].r # Count(T, k) \/ e.AN[k + 1].c # Count(T, T.n) -> {"AveragingShape"}
        [] \E k \in 0..T.n : \E i \in 1..Count(T, k) : ~RowAverages(e.A0[k + 1].rows[i], Rng(T.E[k + 1][i])) -> {"AverageVerticesEqually"}
        [] \E k \in 0..T.n : \E i \in 1..Count(T, k) : ~RowConvex(e.AN[k + 1].rows[i], stars[k][i]) -> {"AverageTopElements"}
        [] \E k \in 0..T.n : \E i \in 1..Count(T, k) :
              \E q \in Rng(e.AN[k + 1].rows[i]) : q[2] * Cardinality(stars[k][i]) # q[3] -> {"AverageTopElementsEqually"}
        [] \E k \in 0..T.n : e.degree[k + 1] # [i \in 1..Count(T, k) |-> Cardinality(stars[k][i])] -> {"DegreeCountsTopElements"}
        [] OTHER -> {}
\* which vertices belong to each n-element (e.V), each element to itself (e.I), and chains and forms filled as asked
Filled_Fail(e, T) ==
   LET size(k) == Count(T, k)
       right(f) == CASE f.how = "at" -> f.out = [i \in 1..size(f.k) |-> IF i \in Rng(f.at) THEN 1 ELSE 0]
                     [] f.how = "all" -> f.out = [i \in 1..size(f.k) |-> f.fill]
                     [] f.how = "range" -> f.out = [i \in 1..size(f.k) |-> i - 1]
                     [] OTHER -> FALSE
   IN CASE Raised(e) -> {"FillingRaised"}
        [] Len(e.V) # T.n + 1 \/ Len(e.I) # T.n + 1 -> {"IncidenceShape"}
        [] \E k \in 0..T.n : e.V[k + 1].r # size(0) \/ e.V[k + 1].c # size(k) -> {"IncidenceShape"}
        [] \E k \in 0..T.n : \E i \in 1..size(k) : LET col == e.V[k + 1].cols[i] IN
              Len(col) # Cardinality(Rng(T.E[k + 1][i])) \/ {q[1] : q \in Rng(col)} # Rng(T.E[k + 1][i]) \/ \E q \in Rng(col) : q[2] # 1 -> {"VerticesOfElements"}
        [] \E k \in 0..T.n : e.I[k + 1].r # size(k) \/ e.I[k + 1].c # size(k) \/ \E i \in 1..size(k) : e.I[k + 1].cols[i] # << <<i, 1>> >> -> {"ElementsThemselves"}
        [] e.last # T.B[T.n] -> {"LastMatrix"}
        [] \E f \in Rng(e.fills) : ~right(f) -> {"FilledAsAsked"}
        [] OTHER -> {}
\* dual averaging: from the presented dual operators e.M, element sets of vertices by downward closure
DualAverage_Fail(e) ==
   LET n == Len(e.M)
       size(k) == IF k = 0 THEN e.M[1].r ELSE e.M[k].c
       RECURSIVE verts(_)
       verts(k) == IF k = 0 THEN [i \in 1..size(0) |-> {i}]
                   ELSE LET low == verts(k - 1) IN [i \in 1..size(k) |-> UNION {low[r] : r \in RowsOf(e.M[k].cols[i])}]
   IN CASE Raised(e) -> {"DualAveragingRaised"}
        [] Len(e.A0) # n + 1 -> {"DualAveragingShape"}
        [] \E k \in 0..n : e.A0[k + 1].r # size(k) \/ e.A0[k + 1].c # size(0) -> {"DualAveragingShape"}
        [] \E k \in 0..n : LET vs == verts(k) IN \E i \in 1..size(k) : ~RowConvex(e.A0[k + 1].rows[i], vs[i]) -> {"DualAverageSupport"}
        [] OTHER -> {}
=============================================================================
