------------------------------ MODULE Complexes ------------------------------
(* Finite cell complexes, as the library presents them to a user.            *)
(*                                                                           *)
(* A topology is a record                                                    *)
(*   kind : "simplicial" | "cubical"                                         *)
(*   n    : dimension                                                        *)
(*   E    : E[k+1] = sequence of k-elements, each a tuple of vertices        *)
(*          (1-based; cubes list their 2^k corners in C order)               *)
(*   B    : B[k]   = [r, c, cols]: the boundary operator from k-elements to  *)
(*          (k-1)-elements; cols[j] = sequence of <<row, coefficient>>       *)
(* The abstract complex denoted by a list of cells is defined independently  *)
(* of any stored order; the predicates compare the two.                      *)
EXTENDS Base

Count(T, k) == Len(T.E[k + 1])
Cells(T) == T.E[T.n + 1]
VSet(c) == Rng(c)
VSets(T, k) == {VSet(T.E[k + 1][i]) : i \in 1..Count(T, k)}
Euler(T) == SumOver(0..T.n, LAMBDA k: EvenSign(k) * Count(T, k))

---------------------------------------------------------------------------
(* Cubes.  Corner index i \in 0..2^k-1, C order: axis 1 is the most          *)
(* significant bit.                                                          *)
Bit(i, ax, k) == (i \div Pow(2, k - ax)) % 2
DimOf(c) == CHOOSE k \in 0..8 : Pow(2, k) = Len(c)
XorBits(a, b, k) == SumOver(1..k, LAMBDA ax: IF Bit(a, ax, k) # Bit(b, ax, k) THEN Pow(2, k - ax) ELSE 0)
\* the face of cube c (dimension k) on side s of axis ax, as a corner tuple in C order
CubeFace(c, k, ax, s) ==
   [j \in 1..Pow(2, k - 1) |->
      LET low  == Pow(2, k - ax)                 \* stride of axis ax
          hi   == (j - 1) \div low
          lo   == (j - 1) % low
      IN c[hi * 2 * low + s * low + lo + 1]]
CubeFaces(c, k) == {CubeFace(c, k, ax, s) : ax \in 1..k, s \in 0..1}

\* Position (corner number) in cube d of vertex v; vertices of a cube are distinct.
PosIn(d, v) == (CHOOSE p \in 1..Len(d) : d[p] = v) - 1
\* Orientation of corner tuple f relative to corner tuple d (same vertex set), both k-cubes:
\* 0 if f is not a symmetric rearrangement of d.
CubeRel(f, d, k) ==
   IF k = 0 THEN (IF f = d THEN 1 ELSE 0)
   ELSE
   LET p0 == PosIn(d, f[1])
       ax == [i \in 1..k |-> LET x == XorBits(PosIn(d, f[Pow(2, k - i) + 1]), p0, k)
                             IN IF \E a \in 1..k : x = Pow(2, k - a)
                                THEN CHOOSE a \in 1..k : x = Pow(2, k - a) ELSE 0]
       ok == /\ \A i \in 1..k : ax[i] # 0
             /\ Distinct(ax)
             /\ \A j \in 0..(Pow(2, k) - 1) :
                   PosIn(d, f[j + 1]) =
                     XorBits(p0, SumOver({i \in 1..k : Bit(j, i, k) = 1}, LAMBDA i: Pow(2, k - ax[i])), k)
   IN IF ~ok THEN 0
      ELSE Sgn(ax) * EvenSign(SumOver(1..k, LAMBDA a: Bit(p0, a, k)))

---------------------------------------------------------------------------
(* Facets of an element and the induced orientation of a stored facet.       *)
SimplexFacets(c) == {Omit(c, i) : i \in Idx(c)}
FacetSets(kind, c, k) == IF kind = "simplicial"
                         THEN {Rng(Omit(c, i)) : i \in Idx(c)}
                         ELSE {Rng(f) : f \in CubeFaces(c, k)}
\* sign of stored facet f in the boundary of stored element c (dimension k >= 1)
SimplexSign(f, c) ==
   LET i == CHOOSE j \in Idx(c) : c[j] \notin Rng(f)
   IN EvenSign(i - 1) * Sgn(Omit(c, i)) * Sgn(f)
CubeSign(f, c, k) ==
   LET q == CHOOSE q \in ((1..k) \X (0..1)) : Rng(CubeFace(c, k, q[1], q[2])) = Rng(f)
   IN EvenSign(q[1] - 1) * (IF q[2] = 1 THEN 1 ELSE -1) * CubeRel(f, CubeFace(c, k, q[1], q[2]), k - 1)
\* The library's convention: head minus tail for edges; above that simplices carry the opposite
\* of the alternating sign and cubes the product sign, uniformly.
IncSign(kind, f, c, k) == IF kind = "simplicial"
                          THEN (IF k = 1 THEN SimplexSign(f, c) ELSE -SimplexSign(f, c))
                          ELSE CubeSign(f, c, k)

---------------------------------------------------------------------------
(* Sparse operators: record [r, c, cols].                                    *)
ColOK(M, j) == \A e \in Rng(M.cols[j]) : e[1] \in 1..M.r
MatOK(M) == Len(M.cols) = M.c /\ \A j \in 1..M.c : ColOK(M, j)
RowsOf(col) == {col[i][1] : i \in Idx(col)}
Coef(col, r) == SumOver({i \in Idx(col) : col[i][1] = r}, LAMBDA i: col[i][2])
\* column j of A*B, as a function on the rows that can be hit
ProdCol(A, B, j) ==
   LET terms == FoldLeft(LAMBDA acc, e: acc \o [i \in Idx(A.cols[e[1]]) |->
                              <<A.cols[e[1]][i][1], e[2] * A.cols[e[1]][i][2]>>], <<>>, B.cols[j])
   IN [r \in {terms[i][1] : i \in Idx(terms)} |-> Coef(terms, r)]
Rng2(f) == {f[x] : x \in DOMAIN f}
ProdZero(A, B) == \A j \in 1..B.c : \A v \in Rng2(ProdCol(A, B, j)) : v = 0
\* transpose equality:  M = N^T on all entries
EntrySet(M) == UNION {{<<M.cols[j][i][1], j, M.cols[j][i][2]>> : i \in Idx(M.cols[j])} : j \in 1..M.c}
TransposeEntries(M) == {<<e[2], e[1], e[3]>> : e \in EntrySet(M)}
IsTranspose(M, N) == M.r = N.c /\ M.c = N.r /\ EntrySet(M) = TransposeEntries(N)

---------------------------------------------------------------------------
(* Well-formedness and the chain-complex property of a presented topology.   *)
WellFormed(T) ==
   /\ Len(T.E) = T.n + 1
   /\ Len(T.B) = T.n
   /\ \A k \in 0..T.n : \A i \in 1..Count(T, k) :
         /\ Len(T.E[k + 1][i]) = (IF T.kind = "simplicial" THEN k + 1 ELSE Pow(2, k))
         /\ Rng(T.E[k + 1][i]) \subseteq 1..Count(T, 0)
         /\ Distinct(T.E[k + 1][i])
ShapesOK(T) == \A k \in 1..T.n : T.B[k].r = Count(T, k - 1) /\ T.B[k].c = Count(T, k) /\ MatOK(T.B[k])
VerticesOK(T) == \A i \in 1..Count(T, 0) : T.E[1][i] = <<i>>
UniqueOK(T) == \A k \in 1..(T.n - 1) : Cardinality(VSets(T, k)) = Count(T, k)
\* rows hit by column j are exactly the facets of element j, once each, coefficients +-1
FacetsOK(T) ==
   \A k \in 1..T.n : \A j \in 1..Count(T, k) :
      LET col == T.B[k].cols[j]
          c   == T.E[k + 1][j]
      IN /\ Len(col) = (IF T.kind = "simplicial" THEN k + 1 ELSE 2 * k)
         /\ \A e \in Rng(col) : e[2] \in {1, -1}
         /\ {Rng(T.E[k][e[1]]) : e \in Rng(col)} = FacetSets(T.kind, c, k)
\* every lower element is a face of something
CoveredOK(T) == \A k \in 1..T.n : UNION {RowsOf(T.B[k].cols[j]) : j \in 1..T.B[k].c} = 1..Count(T, k - 1)
SignsOK(T) ==
   \A k \in 1..T.n : \A j \in 1..Count(T, k) : \A e \in Rng(T.B[k].cols[j]) :
      e[2] = IncSign(T.kind, T.E[k][e[1]], T.E[k + 1][j], k)
ChainOK(T) == \A k \in 1..(T.n - 1) : ProdZero(T.B[k], T.B[k + 1])
\* as built from any cells: several of them may have the same vertices
MeshFailures(T) ==
   CASE ~WellFormed(T)  -> {"WellFormed"}
     [] ~ShapesOK(T)    -> {"OperatorShape"}
     [] ~VerticesOK(T)  -> {"VertexList"}
     [] ~UniqueOK(T)    -> {"FaceListedOnce"}
     [] ~FacetsOK(T)    -> {"ExactFacets"}
     [] ~CoveredOK(T)   -> {"NoExtraFaces"}
     [] ~ChainOK(T)     -> {"BoundaryOfBoundaryZero"}
     [] ~SignsOK(T)     -> {"InducedSigns"}
     [] OTHER           -> {}
\* as derived by an operation that makes new cells
ComplexFailures(T) == IF MeshFailures(T) # {} THEN MeshFailures(T)
                      ELSE IF Cardinality(VSets(T, T.n)) # Count(T, T.n) THEN {"FaceListedOnce"} ELSE {}

---------------------------------------------------------------------------
(* Abstract complex of a list of cells (vertex tuples): used to state what   *)
(* the presentation must denote and by the exhaustive models.                *)
RECURSIVE Closure(_, _, _)
Closure(kind, cells, k) ==            \* cells: set of k-cell tuples; returns [0..k -> sets of vertex sets]
   IF k = 0 THEN [d \in {0} |-> {Rng(c) : c \in cells}]
   ELSE LET facets == IF kind = "simplicial"
                      THEN UNION {SimplexFacets(c) : c \in cells}
                      ELSE UNION {CubeFaces(c, k) : c \in cells}
            low == Closure(kind, facets, k - 1)
        IN [d \in 0..k |-> IF d = k THEN {Rng(c) : c \in cells} ELSE low[d]]

\* coverage of the facets
CoverRows(T) == FoldLeft(LAMBDA acc, col: acc \o [i \in Idx(col) |-> col[i][1]], <<>>, T.B[T.n].cols)
\* rows of the top boundary operator: r -> sequence of <<column, sign>>
TopRows(T) ==
   LET n == T.n
       add(acc, j) == FoldLeft(LAMBDA a, e: [a EXCEPT ![e[1]] = Append(@, <<j, e[2]>>)], acc, T.B[n].cols[j])
   IN FoldLeft(add, [r \in 1..Count(T, n - 1) |-> <<>>], [j \in 1..Count(T, n) |-> j])
OrientedRows(rows) == \A r \in DOMAIN rows : Len(rows[r]) = 2 => rows[r][1][2] + rows[r][2][2] = 0
Oriented(T) == T.n = 0 \/ OrientedRows(TopRows(T))
AtMostTwo(T) == T.n = 0 \/ LET rows == TopRows(T) IN \A r \in DOMAIN rows : Len(rows[r]) <= 2
OnceRows(T) == LET rows == TopRows(T) IN {r \in DOMAIN rows : Len(rows[r]) = 1}

\* connected groups of a set S under a symmetric adjacency given as function x -> neighbours
RECURSIVE Grow(_, _, _)
Grow(seen, front, nb) ==
   LET new == (UNION {nb[x] : x \in front}) \ seen
   IN IF new = {} THEN seen ELSE Grow(seen \cup new, new, nb)
RECURSIVE Groups(_, _)
Groups(S, nb) == IF S = {} THEN {}
                 ELSE LET x == CHOOSE y \in S : TRUE
                          g == Grow({x}, {x}, nb)
                      IN {g} \cup Groups(S \ g, nb)
\* adjacency of a set S of top elements through the facets in rows
Neighbours(S, rows) ==
   LET add(acc, r) ==
         LET cs == {e[1] : e \in Rng(rows[r])} \cap S
         IN IF Cardinality(cs) < 2 THEN acc
            ELSE [x \in S |-> IF x \in cs THEN acc[x] \cup (cs \ {x}) ELSE acc[x]]
   IN FoldSet(LAMBDA r, acc: add(acc, r), [x \in S |-> {}], DOMAIN rows)
Components(T) == IF T.n = 0 THEN {{i} : i \in 1..Count(T, 0)}
                 ELSE Groups(1..Count(T, T.n), Neighbours(1..Count(T, T.n), TopRows(T)))

\* Orientability: within each component propagate a choice of sign; a conflict means none exists.
\* flips: function cell -> +-1 such that across each twice-covered facet signs cancel.
RECURSIVE Propagate(_, _, _)
Propagate(choice, front, pairs) ==     \* choice: partial function cell -> sign; pairs[x] = set of <<y, rel>>
   LET upd == UNION {{<<q[1], choice[x] * q[2]>> : q \in pairs[x]} : x \in front}
       conflict == \/ \E u \in upd : u[1] \in DOMAIN choice /\ choice[u[1]] # u[2]
                   \/ \E u, v \in upd : u[1] = v[1] /\ u[2] # v[2]
       new == {u \in upd : u[1] \notin DOMAIN choice}
   IN IF conflict THEN <<>>
      ELSE IF new = {} THEN choice
      ELSE Propagate([y \in DOMAIN choice \cup {u[1] : u \in new} |->
                        IF y \in DOMAIN choice THEN choice[y] ELSE (CHOOSE u \in new : u[1] = y)[2]],
                     {u[1] : u \in new}, pairs)
RelPairs(T) ==
   LET rows == TopRows(T)
       two  == {r \in DOMAIN rows : Len(rows[r]) = 2}
   IN FoldSet(LAMBDA r, acc:
        LET a == rows[r][1]
            b == rows[r][2]
            rel == -(a[2] * b[2])
        IN [acc EXCEPT ![a[1]] = @ \cup {<<b[1], rel>>}, ![b[1]] = @ \cup {<<a[1], rel>>}],
        [x \in 1..Count(T, T.n) |-> {}], two)
Orientable(T) ==
   T.n = 0 \/ LET pairs == RelPairs(T)
              IN \A g \in Groups(1..Count(T, T.n), [x \in 1..Count(T, T.n) |-> {q[1] : q \in pairs[x]}]) :
                    LET x == CHOOSE y \in g : TRUE
                    IN DOMAIN Propagate([y \in {x} |-> 1], {x}, pairs) # {}
=============================================================================
