------------------------------- MODULE Stencil -------------------------------
(* Periodic stencil grids.  A grid g has `shape` (sides), and its n-forms have *)
(* one component per symbol, a set of axes the element extends along; element  *)
(* (S, pos) is the n-cube spanned from pos by +1 steps along the axes in S.    *)
(* g.symbols[n+1] lists the symbols of degree n as presented by the code.      *)
EXTENDS Sampling

Cells0(g) == ProdSeq(g.shape)                     \* positions, linear 0-based in C order
Dim(g) == Len(g.shape)
Stride(g, a) == ProdSeq(SubSeq(g.shape, a + 1, Len(g.shape)))
Coord(g, l, a) == (l \div Stride(g, a)) % g.shape[a]
Move(g, l, a, d) == LET s == g.shape[a] c == Coord(g, l, a) IN l + (((c + d) % s) - c) * Stride(g, a)
Lin(g, pos) == SumOver(1..Dim(g), LAMBDA a: (pos[a] % g.shape[a]) * Stride(g, a))
Syms(g, n) == g.symbols[n + 1]
SymIdx(g, S) == CHOOSE i \in Idx(Syms(g, Cardinality(S))) : Rng(Syms(g, Cardinality(S))[i]) = S
Elem(g, c, l) == (c - 1) * Cells0(g) + l + 1
NElem(g, n) == Len(Syms(g, n)) * Cells0(g)
Positions0(g) == 0..(Cells0(g) - 1)

\* each n-subset of the axes is exactly one component
SymbolsOK(g) == /\ Len(g.symbols) = Dim(g) + 1
                /\ \A n \in 0..Dim(g) :
                     /\ \A i \in Idx(Syms(g, n)) : Len(Syms(g, n)[i]) = n
                     /\ {Rng(Syms(g, n)[i]) : i \in Idx(Syms(g, n))} = KSubsets(n, 1..Dim(g))
                     /\ Len(Syms(g, n)) = Choose(Dim(g), n)

---------------------------------------------------------------------------
(* derivative: value on (S + a, l) gets +- (value at l + e_a minus value at l) *)
\* entries of the column of element (S, l) in the rows of component S + a, with sign s
DEntries(g, S, a, l, s) ==
   LET c2 == SymIdx(g, S \cup {a}) IN
   IF g.shape[a] = 1 THEN {}
   ELSE {<<Elem(g, c2, Move(g, l, a, -1)), s>>, <<Elem(g, c2, l), -s>>}
DColumns(g, D, n) ==
   \A ci \in Idx(Syms(g, n)) :
      LET S == Rng(Syms(g, n)[ci])
          out == (1..Dim(g)) \ S
          block(c2) == (c2 - 1) * Cells0(g) + 1 .. c2 * Cells0(g)
      IN /\ \A l \in Positions0(g) : Len(D.cols[Elem(g, ci, l)]) = 2 * Cardinality({a \in out : g.shape[a] > 1})
         /\ \A a \in out : \E s \in {-1, 1} : \A l \in Positions0(g) :
               {q \in Rng(D.cols[Elem(g, ci, l)]) : q[1] \in block(SymIdx(g, S \cup {a}))} = DEntries(g, S, a, l, s)
Stencil_Fail(e) ==
   LET g == e.val N == Dim(g)
   IN CASE Raised(e) -> {"StencilRaised"}
        [] g.shape # e.shape -> {"StencilShape"}
        [] ~SymbolsOK(g) -> {"ComponentsAreAxisSubsets"}
        [] Len(g.D) # N \/ Len(g.dual) # N \/ Len(g.DT) # N -> {"DerivativeCount"}
        [] \E n \in 0..N : g.sizes[n + 1] # <<Len(Syms(g, n))>> \o g.shape -> {"FormShape"}
        [] \E n \in 1..N : g.D[n].r # NElem(g, n) \/ g.D[n].c # NElem(g, n - 1) -> {"DerivativeShape"}
        [] \E n \in 1..N : ~DColumns(g, g.D[n], n - 1) -> {"DerivativeIsDifferenceOfNeighbours"}
        [] \E n \in 1..(N - 1) : ~ProdZero(g.D[n + 1], g.D[n]) -> {"DerivativesComposeToZero"}
        [] \E n \in 1..N : EntrySet(g.dual[n]) # TransposeEntries(g.D[n]) \/ g.dual[n].r # g.D[n].c \/ g.dual[n].c # g.D[n].r -> {"DualIsTranspose"}
        [] \E n \in 1..N : EntrySet(g.DT[n]) # TransposeEntries(g.D[n]) -> {"TransposeIsAdjoint"}
        [] \E n \in 2..N : ~ProdZero(g.dual[n - 1], g.dual[n]) -> {"DualDerivativesComposeToZero"}
        [] OTHER -> {}
\* the operators applied to a concrete form; which = "D" or "dual"
MulRow(M, x) == FoldLeft(LAMBDA acc, j: FoldLeft(LAMBDA b, q: [b EXCEPT ![q[1]] = @ + q[2] * x[j]], acc, M.cols[j]),
                         [i \in 1..M.r |-> 0], [j \in 1..M.c |-> j])
StencilApply_Fail(e, g) ==
   CASE Raised(e) -> {"ApplyRaised"}
     [] e.y # MulRow(IF e.which = "D" THEN g.D[e.n + 1] ELSE g.dual[e.n + 1], e.x) -> {"ApplyIsLinear"}
     [] e.x # e.x_after -> {"ApplyKeepsArgument"}
     [] OTHER -> {}
\* equality with the coboundary of the explicit periodic cubical complex T, presented by the code itself:
\* vertices of T are the positions + 1; every n-cube of T is one element, operators agree up to one sign per element
SpanOf(g, S, l) == LET at(U) == FoldLeft(LAMBDA acc, a: Move(g, acc, a, 1), l, SetToSeq(U)) IN {at(U) + 1 : U \in SUBSET S}
Explicit_Fail(e, g) ==
   LET T == e.topo N == Dim(g)
       where(n) == [ci \in Idx(Syms(g, n)) |-> [l \in Positions0(g) |->
                      LET want == SpanOf(g, Rng(Syms(g, n)[ci]), l) IN {k \in 1..Count(T, n) : Rng(T.E[n + 1][k]) = want}]]
   IN CASE Raised(e) -> {"ExplicitRaised"}
        [] ComplexFailures(T) # {} -> {"ExplicitIsComplex"}
        [] \E n \in 0..N : Count(T, n) # NElem(g, n) -> {"ExplicitCounts"}
        [] \E n \in 0..N : \E ci \in Idx(Syms(g, n)) : \E l \in Positions0(g) : Cardinality(where(n)[ci][l]) # 1 -> {"ElementsCorrespond"}
        [] \E n \in 1..N :
              LET to == where(n) from == where(n - 1)
                  name(w, i) == CHOOSE k \in w[((i - 1) \div Cells0(g)) + 1][(i - 1) % Cells0(g)] : TRUE
              IN {<<name(to, q[1]), name(from, q[2])>> : q \in EntrySet(g.D[n])} # {<<q[2], q[1]>> : q \in EntrySet(T.B[n])} -> {"CoboundaryOfExplicitComplex"}
        [] OTHER -> {}

---------------------------------------------------------------------------
(* metric: hodge factors; e.scale rational, e.hodge[n] list of distinct factors *)
RECURSIVE RPow(_, _)
RPow(r, k) == IF k = 0 THEN ROne ELSE IF k < 0 THEN RInv(RPow(r, -k)) ELSE RMul(r, RPow(r, k - 1))
StencilMetric_Fail(e, g) ==
   CASE Raised(e) -> {"StencilMetricRaised"}
     [] Len(e.hodge) # Dim(g) + 1 -> {"HodgeCount"}
     [] \E n \in 0..Dim(g) : e.hodge[n + 1].diag # [i \in 1..NElem(g, n) |-> RPow(e.scale, Dim(g) - 2 * n)] -> {"HodgeIsDualOverPrimal"}
     [] \E n \in 0..Dim(g) : \E i \in Idx(e.hodge[n + 1].diag) : ~REq(RMul(e.hodge[n + 1].diag[i], e.hodge[n + 1].inv[i]), ROne) -> {"HodgeInverse"}
     [] e.position # [l \in 1..Cells0(g) |-> [a \in 1..Dim(g) |-> RMul(RInt(Coord(g, l - 1, a)), e.scale)]] -> {"VertexPositions"}
     [] OTHER -> {}

---------------------------------------------------------------------------
(* hierarchy: coarse element (S, L) covers the fine (S, l) with l in 2L + {0, 1 on S} *)
Half(g) == [shape |-> [a \in Idx(g.shape) |-> g.shape[a] \div 2], symbols |-> g.symbols]
Even(g) == \A a \in Idx(g.shape) : g.shape[a] % 2 = 0
Children(g, S, L) ==     \* fine positions
   LET h == Half(g)
       base == Lin(g, [a \in 1..Dim(g) |-> 2 * Coord(h, L, a)])
   IN {FoldLeft(LAMBDA acc, a: Move(g, acc, a, 1), base, SetToSeq(U)) : U \in SUBSET S}
\* smoothing weight from fine m to fine l of an S-component: [1/4,1/2,1/4] (unit sum) or [1/2,1,1/2], across the axes not in S
Tap(k, unit) == IF unit THEN (IF k = 0 THEN <<1, 2>> ELSE <<1, 4>>) ELSE (IF k = 0 THEN <<1, 1>> ELSE <<1, 2>>)
AxisWeight(g, a, l, m, unit) ==
   RSumSeq([k \in 1..3 |-> IF Coord(g, Move(g, l, a, k - 2), a) = Coord(g, m, a) THEN Tap(k - 2, unit) ELSE RZero])
SmoothWeight(g, S, l, m, unit) ==
   IF \E a \in S : Coord(g, l, a) # Coord(g, m, a) THEN RZero
   ELSE FoldLeft(LAMBDA acc, a: IF acc[1] = 0 \/ a \in S THEN acc ELSE RMul(acc, AxisWeight(g, a, l, m, unit)), ROne, [a \in 1..Dim(g) |-> a])
Nbhd(g, S, l) ==    \* positions with a possibly nonzero weight
   FoldLeft(LAMBDA acc, a: IF a \in S THEN acc ELSE acc \cup {Move(g, x, a, 1) : x \in acc} \cup {Move(g, x, a, -1) : x \in acc}, {l}, [a \in 1..Dim(g) |-> a])
RowIs(row, want) ==   \* row: sequence of <<col, num, den>>; want: function col -> rational (nonzero ones only)
   /\ {row[i][1] : i \in Idx(row)} = DOMAIN want
   /\ \A i \in Idx(row) : REq(<<row[i][2], row[i][3]>>, want[row[i][1]])
Rationals(S, f(_)) == [x \in S |-> f(x)]
\* expected rows
SmoothRow(g, ci, l, n, unit) ==
   LET S == Rng(Syms(g, n)[ci])
       off == (ci - 1) * Cells0(g) + 1
   IN [k \in {off + m : m \in Nbhd(g, S, l)} |-> SmoothWeight(g, S, l, k - off, unit)]
TransferRow(g, ci, L, n) ==
   LET S == Rng(Syms(g, n)[ci]) IN [k \in {Elem(g, ci, m) : m \in Children(g, S, L)} |-> <<1, Pow(2, n)>>]
CoarsenRow(g, ci, L, n) ==
   LET S == Rng(Syms(g, n)[ci])
       off == (ci - 1) * Cells0(g) + 1
       ch == Children(g, S, L)
   IN [k \in {off + m : m \in UNION {Nbhd(g, S, f) : f \in ch}} |->
         RMul(<<1, Pow(2, n)>>, RSumSet(ch, LAMBDA f: SmoothWeight(g, S, f, k - off, TRUE)))]
RefineRow(g, ci, l, n) ==   \* row of a fine element: coarse elements whose children it hears
   LET S == Rng(Syms(g, n)[ci])
       h == Half(g)
       off == (ci - 1) * Cells0(h) + 1
       w == [L \in Positions0(h) |-> RSumSet(Children(g, S, L), LAMBDA f: SmoothWeight(g, S, f, l, FALSE))]
   IN [k \in {off + L : L \in {L \in Positions0(h) : w[L][1] # 0}} |-> w[k - off]]
TileRow(g, ci, l, n) ==
   LET S == Rng(Syms(g, n)[ci]) h == Half(g)
   IN [k \in {Elem(h, ci, L) : L \in {L \in Positions0(h) : l \in Children(g, S, L)}} |-> ROne]
RowsAre(M, g, n, h, row(_, _)) ==
   \A ci \in Idx(Syms(g, n)) : \A l \in Positions0(h) : RowIs(M.rows[Elem(h, ci, l)], row(ci, l))
Hierarchy_Fail(e, g) ==
   LET N == Dim(g) h == Half(g)
       each(M, r(_)) == Len(M) = N + 1 /\ \A n \in 0..N : M[n + 1].r = r(n)
   IN CASE Raised(e) -> {"HierarchyRaised"}
        [] e.coarse_shape # h.shape -> {"CoarseShape"}
        [] e.fine_shape # [a \in 1..N |-> 2 * g.shape[a]] -> {"FineShape"}
        [] e.roundtrip # g.shape -> {"CoarseAndFineInverse"}
        [] ~REq(e.coarse_scale, RMul(<<2, 1>>, e.scale)) \/ ~REq(e.fine_scale, RMul(<<1, 2>>, e.scale)) -> {"PhysicalExtentKept"}
        [] ~each(e.bin, LAMBDA n: NElem(h, n)) \/ ~each(e.tile, LAMBDA n: NElem(g, n))
              \/ ~each(e.coarsen, LAMBDA n: NElem(h, n)) \/ ~each(e.refine, LAMBDA n: NElem(g, n)) -> {"TransferShape"}
        [] \E n \in 0..N : ~RowsAre(e.bin[n + 1], g, n, h, LAMBDA ci, l: TransferRow(g, ci, l, n)) -> {"TransferRelatesParentAndChildren"}
        [] \E n \in 0..N : ~RowsAre(e.tile[n + 1], g, n, g, LAMBDA ci, l: TileRow(g, ci, l, n)) -> {"TransferTransposed"}
        [] \E n \in 0..N : ~RowsAre(e.coarsen[n + 1], g, n, h, LAMBDA ci, l: CoarsenRow(g, ci, l, n)) -> {"CoarsenOperator"}
        [] \E n \in 0..N : ~RowsAre(e.refine[n + 1], g, n, g, LAMBDA ci, l: RefineRow(g, ci, l, n)) -> {"RefineOperator"}
        [] OTHER -> {}
Smoothers_Fail(e, g) ==
   LET N == Dim(g)
   IN CASE Raised(e) -> {"SmoothersRaised"}
        [] Len(e.S) # N + 1 -> {"SmootherCount"}
        [] \E n \in 0..N : ~RowsAre(e.S[n + 1], g, n, g, LAMBDA ci, l: SmoothRow(g, ci, l, n, e.unit)) -> {"SmootherOperator"}
        [] OTHER -> {}
\* averaging vertices onto n-elements
StencilAverage_Fail(e, g) ==
   CASE Raised(e) -> {"StencilAverageRaised"}
     [] Len(e.A) # Dim(g) + 1 -> {"StencilAverageShape"}
     [] \E n \in 0..Dim(g) : ~RowsAre(e.A[n + 1], g, n, g, LAMBDA ci, l:
           LET S == Rng(Syms(g, n)[ci])
               hit(k) == Cardinality({U \in SUBSET S : FoldLeft(LAMBDA acc, a: Move(g, acc, a, 1), l, SetToSeq(U)) = k - 1})
           IN [k \in SpanOf(g, S, l) |-> RNorm(hit(k), Pow(2, n))]) -> {"AveragesCornersOfElement"}
     [] OTHER -> {}
\* concrete applications of a transfer: y = M x with the presented operator's matrix, argument untouched
RMulRow(row, x) == RSumSeq([i \in Idx(row) |-> RMul(<<row[i][2], row[i][3]>>, x[row[i][1]])])
TransferApply_Fail(e) ==
   CASE Raised(e) -> {"ApplyRaised"}
     [] \E i \in Idx(e.y) : ~REq(e.y[i], RMulRow(e.M.rows[i], e.x)) -> {"ApplyIsLinear"}
     [] Len(e.y) # e.M.r -> {"ApplyShape"}
     [] OTHER -> {}

---------------------------------------------------------------------------
(* sampling: periodic multilinear interpolation of the values f (by position) *)
RFloor(r) == r[1] \div r[2]
Periodic(g, f, u) ==    \* u: point in index units
   LET N == Dim(g)
       lo == [a \in 1..N |-> RFloor(u[a])]
       fr == [a \in 1..N |-> RSub(u[a], RInt(lo[a]))]
   IN RSumSet(SUBSET (1..N), LAMBDA U:
        RMul(f[Lin(g, [a \in 1..N |-> lo[a] + (IF a \in U THEN 1 ELSE 0)]) + 1],
             FoldLeft(LAMBDA acc, a: RMul(acc, IF a \in U THEN fr[a] ELSE RSub(ROne, fr[a])), ROne, [a \in 1..N |-> a])))
StencilSample_Fail(e, g) ==
   CASE Raised(e) -> {"StencilSampleRaised"}
     [] Len(e.values) # Len(e.points) -> {"StencilSampleShape"}
     [] \E i \in Idx(e.points) : ~REq(e.values[i], Periodic(g, e.f, [a \in 1..Dim(g) |-> RDiv(e.points[i][a], e.scale)])) -> {"PeriodicMultilinear"}
     [] OTHER -> {}
=============================================================================
