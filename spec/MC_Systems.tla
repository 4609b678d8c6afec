------------------------------ MODULE MC_Systems ------------------------------
(* Systems reachable from the canonical one by selecting rows and columns,     *)
(* zeroing blocks and forming normal equations.  Checked: the canonical system *)
(* is symmetric; normal systems are symmetric; every solution of a system      *)
(* solves the normal one; degrees always describe the blocks; the smoothers    *)
(* leave exact solutions alone.  Emits the derivations.                        *)
EXTENDS Systems, Json, IOUtils
CONSTANTS Shape, Label, MaxSteps
VARIABLES sys, prog

Grid(s) == [shape |-> s, symbols |-> [n \in 1..(Len(s) + 1) |->
              SetToSortSeq({SetToSortSeq(S, LAMBDA a, b: a < b) : S \in KSubsets(n - 1, 1..Len(s))},
                                     LAMBDA a, b: SumOver(Rng(a), LAMBDA x: Pow(2, x)) < SumOver(Rng(b), LAMBDA x: Pow(2, x)))]]
g0 == Grid(Shape)
SignOf(S, a) == EvenSign(Cardinality({x \in S : x > a}))
DMat(gr, n) == [r |-> NElem(gr, n + 1), c |-> NElem(gr, n),
              cols |-> [j \in 1..NElem(gr, n) |->
                 LET ci == ((j - 1) \div Cells0(gr)) + 1 l == (j - 1) % Cells0(gr) S == Rng(Syms(gr, n)[ci])
                 IN SetToSeq(UNION {DEntries(gr, S, a, l, SignOf(S, a)) : a \in (1..Dim(gr)) \ S})]]
g == [shape |-> Shape, symbols |-> g0.symbols, D |-> [n \in 1..Len(Shape) |-> DMat(g0, n - 1)]]
Scales == {<<1, 1>>, <<2, 1>>}
Ascending(S) == SetToSortSeq(S, LAMBDA a, b: a < b)
Picks(n) == {Ascending(S) : S \in (SUBSET (1..n)) \ {{}}}
Derived0 == "normal" \in {p.how : p \in Rng(prog)} \/ "normal_ne" \in {p.how : p \in Rng(prog)}

ShL == <<2>>
ShP == <<1, 2>>
ShW == <<2, 2>>
Init == \E sc \in Scales : sys = CanonicalSys(g, sc) /\ prog = <<[how |-> "canonical", scale |-> sc, rows |-> << >>, cols |-> << >>]>>
SliceStep == ~Derived0 /\ \E rows \in Picks(Len(sys.A)), cols \in Picks(Len(sys.A[1])) :
            /\ ~(Len(rows) = Len(sys.A) /\ Len(cols) = Len(sys.A[1]))
            /\ sys' = SliceSys(sys, rows, cols)
            /\ prog' = Append(prog, [how |-> "slice", rows |-> rows, cols |-> cols, scale |-> <<0, 1>>])
ZeroStep == ~Derived0 /\ \E i \in Idx(sys.A), j \in Idx(sys.A[1]) :
            /\ sys' = ZeroSys(sys, i, j) /\ sys' # sys
            /\ prog' = Append(prog, [how |-> "zero", rows |-> <<i>>, cols |-> <<j>>, scale |-> <<0, 1>>])
NormalStep == ~Derived0 /\ sys' = NormalSys(sys) /\ prog' = Append(prog, [how |-> "normal", rows |-> << >>, cols |-> << >>, scale |-> <<0, 1>>])
NormalNEStep == ~Derived0 /\ sys' = NormalNE(sys) /\ prog' = Append(prog, [how |-> "normal_ne", rows |-> << >>, cols |-> << >>, scale |-> <<0, 1>>])
Next == Len(prog) <= MaxSteps /\ (SliceStep \/ ZeroStep \/ NormalStep \/ NormalNEStep)
Spec == Init /\ [][Next]_<<sys, prog>>

Last0 == prog[Len(prog)].how
Shapes0 == /\ Len(sys.L) = Len(sys.A) /\ Len(sys.R) = Len(sys.A[1])
           /\ \A i \in Idx(sys.A), j \in Idx(sys.A[1]) : Len(sys.A[i][j]) = NElem(g, sys.L[i]) /\ DCols(sys.A[i][j]) = NElem(g, sys.R[j])
           /\ (Last0 # "normal") => \A i \in Idx(sys.B), j \in Idx(sys.B[1]) : Len(sys.B[i][j]) = NElem(g, sys.L[i])
Symmetric == Last0 \in {"canonical", "normal", "normal_ne"} => BlockTransR(sys.A) = sys.A
SampleX(s) == [j \in Idx(s.R) |-> [p \in 1..NElem(s.g, s.R[j]) |-> RInt(((3 * p + 5 * j + p * p) % 7) - 3)]]
\* with B = 1 any x solves the system with y = A x; it then solves the normal system, and the smoothers keep it
SolutionsSurvive == ~Derived0 =>
    LET x == SampleX(sys) y == BlockApplyR(sys.A, x) n == NormalSys(sys)
    IN /\ BlockApplyR(n.A, x) = BlockApplyR(n.B, y)
       /\ (\A i \in Idx(n.A) : \A p \in Idx(n.A[i][i]) : n.A[i][i][p][p] # RZero) => Jacobi(sys, x, y, ROne) = x /\ GaussSeidelNR(sys, x, y) = x
       /\ (\A i \in Idx(sys.A) : \A p \in Idx(sys.A[i][1]) : \E j \in Idx(sys.A[1]) : \E q \in Idx(sys.A[i][j][p]) : sys.A[i][j][p][q] # RZero) => GaussSeidelNE(sys, x, y) = x
Emit == PrintT(<<"PROG", ToJson(prog)>>)
=============================================================================
