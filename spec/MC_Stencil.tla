------------------------------ MODULE MC_Stencil ------------------------------
(* Every small periodic grid: the specified derivative is a complex, adjoint   *)
(* to its dual; the specified coarsening and refinement commute with it up to  *)
(* the factor two of the spacing; constants survive the round trip.  Emits     *)
(* every shape.                                                                *)
EXTENDS Stencil, Json, IOUtils
CONSTANTS MaxDim, MaxSide, MaxCells, Label
VARIABLES shape

Grid(s) == [shape |-> s, symbols |-> [n \in 1..(Len(s) + 1) |->
              LET ss == SetToSortSeq({SetToSortSeq(S, LAMBDA a, b: a < b) : S \in KSubsets(n - 1, 1..Len(s))},
                                     LAMBDA a, b: SumOver(Rng(a), LAMBDA x: Pow(2, x)) < SumOver(Rng(b), LAMBDA x: Pow(2, x)))
              IN ss]]
Init == shape = << >>
Next == Len(shape) < MaxDim /\ \E s \in 1..MaxSide : shape' = Append(shape, s) /\ ProdSeq(shape') <= MaxCells
Spec == Init /\ [][Next]_shape
g == Grid(shape)
\* sign of (S, a): the derivative direction is put last
SignOf(S, a) == EvenSign(Cardinality({x \in S : x > a}))
DMat(gr, n) == [r |-> NElem(gr, n + 1), c |-> NElem(gr, n),
              cols |-> [j \in 1..NElem(gr, n) |->
                 LET ci == ((j - 1) \div Cells0(gr)) + 1 l == (j - 1) % Cells0(gr) S == Rng(Syms(gr, n)[ci])
                 IN SetToSeq(UNION {DEntries(gr, S, a, l, SignOf(S, a)) : a \in (1..Dim(gr)) \ S})]]
Components0 == shape # << >> => SymbolsOK(g)
Accepted == shape # << >> => \A n \in 0..(Dim(g) - 1) : DColumns(g, DMat(g, n), n)
ComposeZero == shape # << >> => \A n \in 0..(Dim(g) - 2) : ProdZero(DMat(g, n + 1), DMat(g, n))
\* operators as functions of rational forms, to state the commuting diagrams
RowApply(row, x) == RSumSet(DOMAIN row, LAMBDA k: RMul(row[k], x[k]))
DApply(gr, n, x) == LET M == DMat(gr, n) IN
     FoldLeft(LAMBDA acc, j: FoldLeft(LAMBDA b, q: [b EXCEPT ![q[1]] = RAdd(@, RMul(RInt(q[2]), x[j]))], acc, M.cols[j]),
              [i \in 1..M.r |-> RZero], [j \in 1..M.c |-> j])
DTApply(gr, n, x) == LET M == DMat(gr, n) IN
     [j \in 1..M.c |-> RSumSeq([q \in Idx(M.cols[j]) |-> RMul(RInt(M.cols[j][q][2]), x[M.cols[j][q][1]])])]
CoarseMap(row(_, _, _), n, x) == LET h == Half(g) IN [i \in 1..NElem(h, n) |-> RowApply(row(((i - 1) \div Cells0(h)) + 1, (i - 1) % Cells0(h), n), x)]
FineMap(row(_, _, _), n, x) == [i \in 1..NElem(g, n) |-> RowApply(row(((i - 1) \div Cells0(g)) + 1, (i - 1) % Cells0(g), n), x)]
BinMap(n, x) == CoarseMap(LAMBDA c, l, m: TransferRow(g, c, l, m), n, x)
CoarsenMap(n, x) == CoarseMap(LAMBDA c, l, m: CoarsenRow(g, c, l, m), n, x)
RefineMap(n, x) == FineMap(LAMBDA c, l, m: RefineRow(g, c, l, m), n, x)
UnitForm(m, k) == [i \in 1..m |-> IF i = k THEN ROne ELSE RZero]
OneForm(m) == [i \in 1..m |-> ROne]
ScaledForm(k, x) == [i \in DOMAIN x |-> RMul(k, x[i])]
EvenGrid == shape # << >> /\ Even(g)
Two == <<2, 1>>
\* differences of parents are the sums of the differences of their children: d bin = 2 bin d
TransfersCommute == EvenGrid => \A n \in 0..(Dim(g) - 1) : \A k \in 1..NElem(g, n) :
     DApply(Half(g), n, BinMap(n, UnitForm(NElem(g, n), k))) = ScaledForm(Two, BinMap(n + 1, DApply(g, n, UnitForm(NElem(g, n), k))))
\* interpolation commutes with the derivative, restriction with its adjoint, up to the ratio of the spacings
RefineCommutes == EvenGrid => \A n \in 0..(Dim(g) - 1) : \A k \in 1..NElem(Half(g), n) :
     RefineMap(n + 1, DApply(Half(g), n, UnitForm(NElem(Half(g), n), k))) = ScaledForm(Two, DApply(g, n, RefineMap(n, UnitForm(NElem(Half(g), n), k))))
CoarsenCommutes == EvenGrid => \A n \in 0..(Dim(g) - 1) : \A k \in 1..NElem(g, n + 1) :
     DTApply(Half(g), n, CoarsenMap(n + 1, UnitForm(NElem(g, n + 1), k))) = ScaledForm(Two, CoarsenMap(n, DTApply(g, n, UnitForm(NElem(g, n + 1), k))))
\* restriction is the adjoint of interpolation up to 2^-dim
AdjointUpToScale == EvenGrid => \A n \in 0..Dim(g) : \A k \in 1..NElem(g, n) : \A j \in 1..NElem(Half(g), n) :
     RMul(RInt(Pow(2, Dim(g))), CoarsenMap(n, UnitForm(NElem(g, n), k))[j]) = RefineMap(n, UnitForm(NElem(Half(g), n), j))[k]
ConstantsSurvive == EvenGrid => \A n \in 0..Dim(g) : /\ RefineMap(n, OneForm(NElem(Half(g), n))) = OneForm(NElem(g, n))
                                                     /\ CoarsenMap(n, OneForm(NElem(g, n))) = OneForm(NElem(Half(g), n))
Shapes == UNION {[1..d -> 1..MaxSide] : d \in 1..MaxDim}
Dump == TLCGet("distinct") > 0 /\ ndJsonSerialize(IOEnv.GENDIR \o "/stencil-" \o Label \o ".ndjson",
          SetToSeq({[shape |-> s] : s \in {s \in Shapes : ProdSeq(s) <= MaxCells}}))
=============================================================================
