------------------------------- MODULE MC_Blocks -------------------------------
(* Every pair of small block layouts: multiplying, transposing, adding,        *)
(* applying and slicing block by block means the flat operation.  Emits the    *)
(* layouts.                                                                    *)
EXTENDS Blocks, Json, IOUtils
CONSTANTS MaxBlocks, MaxSize, Label
VARIABLES rs, cs, ks

Layouts == UNION {[1..n -> 1..MaxSize] : n \in 1..MaxBlocks}
\* an arbitrary-looking integer matrix cut into blocks
Entry(a, i, j) == ((7 * a + 3 * i * i + 5 * j + i * j) % 7) - 3
Off(s, k) == SumOver(1..(k - 1), LAMBDA i: s[i])
Cut(a, r, c) == [i \in Idx(r) |-> [j \in Idx(c) |-> [p \in 1..r[i] |-> [q \in 1..c[j] |-> Entry(a, Off(r, i) + p, Off(c, j) + q)]]]]
CutV(a, r) == [i \in Idx(r) |-> [p \in 1..r[i] |-> Entry(a, 4, Off(r, i) + p)]]
Whole(a, r, c) == [p \in 1..SumSeq(r) |-> [q \in 1..SumSeq(c) |-> Entry(a, p, q)]]
\* the block operations
BMul(A, B) == [i \in Idx(A) |-> [k \in Idx(B[1]) |-> FoldLeft(LAMBDA acc, j: IAdd(acc, IMul(A[i][j], B[j][k])), IMul(A[i][1], B[1][k]), [j \in 1..(Len(B) - 1) |-> j + 1])]]
BTrans(A) == [j \in Idx(A[1]) |-> [i \in Idx(A) |-> ITrans(A[i][j])]]
BAdd(A, B) == [i \in Idx(A) |-> [j \in Idx(A[i]) |-> IAdd(A[i][j], B[i][j])]]
VAddI(a, b) == [i \in Idx(a) |-> a[i] + b[i]]
BApply(A, x) == [i \in Idx(A) |-> FoldLeft(LAMBDA acc, j: VAddI(acc, IApply(A[i][j], x[j])), IApply(A[i][1], x[1]), [j \in 1..(Len(x) - 1) |-> j + 1])]

Init == rs \in Layouts /\ cs \in Layouts /\ ks = << >>
Next == ks = << >> /\ ks' \in Layouts /\ UNCHANGED <<rs, cs>>
Spec == Init /\ [][Next]_<<rs, cs, ks>>
A == Cut(1, rs, cs)
RoundTrip == FlatM(A) = Whole(1, rs, cs) /\ Fits(A) /\ RowSizes(A) = rs /\ ColSizes(A) = cs
TransposeFlat == FlatM(BTrans(A)) = ITrans(FlatM(A))
AddFlat == FlatM(BAdd(A, Cut(2, rs, cs))) = IAdd(FlatM(A), Whole(2, rs, cs))
ApplyFlat == FlatV(BApply(A, CutV(3, cs))) = IApply(FlatM(A), FlatV(CutV(3, cs)))
MulFlat == ks # << >> => LET B == Cut(2, cs, ks) IN FlatM(BMul(A, B)) = IMul(FlatM(A), FlatM(B))
AdjointFlat == FlatV(BApply(BTrans(A), CutV(3, rs))) = IApply(ITrans(FlatM(A)), FlatV(CutV(3, rs)))
Dump == TLCGet("distinct") > 0 /\ ndJsonSerialize(IOEnv.GENDIR \o "/layouts-" \o Label \o ".ndjson",
          SetToSeq({[r |-> x, c |-> y] : x \in Layouts, y \in Layouts}))
=============================================================================
