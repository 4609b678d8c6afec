-------------------------------- MODULE Theory --------------------------------
(* The specification's own constructions: from a list of cells to a full     *)
(* presented topology, its boundary, its dual.  The exhaustive models check   *)
(* that these satisfy the properties; the trace specification demands them    *)
(* of the implementation.                                                     *)
EXTENDS TopoOps

SortedTuple(S) == SetToSortSeq(S, LAMBDA a, b: a < b)
\* one representative tuple per face, chosen by the spec (any choice will do)
\* the same cell with opposite orientation: swap two vertices, or flip a cube along its first axis
Mirror(kind, f, k) ==
   IF kind = "simplicial" THEN [i \in Idx(f) |-> IF i = 1 THEN f[2] ELSE IF i = 2 THEN f[1] ELSE f[i]]
   ELSE [i \in Idx(f) |-> LET h == Pow(2, k - 1) IN IF i <= h THEN f[i + h] ELSE f[i - h]]
RECURSIVE Faces0(_, _, _)
Faces0(kind, cells, k) ==     \* sequence (k+1 entries) of sequences of element tuples; cells: sequence of k-cells
   IF k = 0 THEN <<cells>>
   ELSE LET fs == FoldLeft(LAMBDA acc, c: acc \cup (IF kind = "simplicial" THEN SimplexFacets(c) ELSE CubeFaces(c, k)), {}, cells)
            keys == SetToSeq({Rng(f) : f \in fs})
            first(S) == cells[CHOOSE i \in Idx(cells) : /\ S \in FacetSets(kind, cells[i], k)
                                                     /\ \A j \in 1..(i - 1) : S \notin FacetSets(kind, cells[j], k)]
            \* the stored facet carries the orientation induced by the first cell it bounds
            pick(S) == LET f == CHOOSE g \in fs : Rng(g) = S
                       IN IF k = 1 \/ IncSign(kind, f, first(S), k) = 1 THEN f ELSE Mirror(kind, f, k - 1)
            low == [i \in Idx(keys) |-> pick(keys[i])]
            lowest == [i \in 1..Cardinality(UNION {Rng(c) : c \in Rng(cells)}) |-> <<i>>]
        IN IF k = 1 THEN <<lowest, cells>> ELSE Append(Faces0(kind, low, k - 1), cells)
Build(kind, n, cells) ==
   LET E == Faces0(kind, cells, n)
       IndexOf(seq, S) == CHOOSE i \in Idx(seq) : Rng(seq[i]) = S
       col(k, c) == LET fs == SetToSeq(FacetSets(kind, c, k))
                    IN [q \in Idx(fs) |-> LET r == IndexOf(E[k], fs[q]) IN <<r, IncSign(kind, E[k][r], c, k)>>]
   IN [kind |-> kind, n |-> n, E |-> E,
       B |-> [k \in 1..n |-> [r |-> Len(E[k]), c |-> Len(E[k + 1]), cols |-> [j \in Idx(E[k + 1]) |-> col(k, E[k + 1][j])]]]]

\* boundary operators restricted to the once-covered facets and their faces, with the index map
RestrictTo(T, keep, m) ==    \* keep[k] = sequence of kept k-element indices, k = 0..m
   LET pos(k, i) == CHOOSE p \in Idx(keep[k]) : keep[k][p] = i
   IN [k \in 1..m |-> [r |-> Len(keep[k - 1]), c |-> Len(keep[k]),
        cols |-> [j \in Idx(keep[k]) |-> [q \in Idx(T.B[k].cols[keep[k][j]]) |->
                   <<pos(k - 1, T.B[k].cols[keep[k][j]][q][1]), T.B[k].cols[keep[k][j]][q][2]>>]]]]
\* dual boundary operators of an oriented T:  M[k] from dual k- to dual (k-1)-elements
BuildDual(T) ==
   LET n == T.n
       once == OnceRows(T)
       bnd == IF once = {} THEN [d \in 0..(n - 1) |-> {}] ELSE Faces(T, once)
       keep == [d \in 0..(n - 1) |-> SortedTuple(bnd[d])]
       R == RestrictTo(T, keep, n - 1)
       rows == TopRows(T)
       pos(d, i) == CHOOSE p \in Idx(keep[d]) : keep[d][p] = i
       \* dual k-element i <= Count(T, n-k) is the partner of primal i; then boundary (n-1-k)-elements
       fullsize(k) == Count(T, n - k) + (IF k = n THEN 0 ELSE Len(keep[n - 1 - k]))
       \* column of dual k-element j
       primalrow(k, j) == LET m == n - k + 1    \* T.B[m] : m-elements -> (m-1)-elements; row j
                              hits == {q \in ((1..Count(T, m)) \X {1, -1}) : <<j, q[2]>> \in Rng(T.B[m].cols[q[1]])}
                          IN SetToSeq(hits)
       glue(k, j) == IF k <= n /\ j \in bnd[n - k]
                     THEN <<<<Count(T, n - k + 1) + pos(n - k, j), IF k = 1 THEN -rows[j][1][2] ELSE -1>>>> ELSE <<>>
       brow(k, j) == LET m == n - k              \* R[m], row j, negated
                         hits == {q \in ((1..R[m].c) \X {1, -1}) : <<j, q[2]>> \in Rng(R[m].cols[q[1]])}
                         s == SetToSeq(hits)
                     IN [i \in Idx(s) |-> <<Count(T, n - k + 1) + s[i][1], -s[i][2]>>]
   IN [k \in 1..n |-> [r |-> fullsize(k - 1), c |-> fullsize(k),
        cols |-> [j \in 1..fullsize(k) |->
            IF j <= Count(T, n - k) THEN primalrow(k, j) \o glue(k, j)
            ELSE IF k < n THEN brow(k, j - Count(T, n - k)) ELSE <<>>]]]

\* definitional orientability, by brute force over all sign choices
BruteOrientable(T) ==
   LET rows == TopRows(T) IN
   \E f \in [1..Count(T, T.n) -> {1, -1}] :
      \A r \in DOMAIN rows : Len(rows[r]) = 2 => f[rows[r][1][1]] * rows[r][1][2] + f[rows[r][2][1]] * rows[r][2][2] = 0
=============================================================================
