------------------------------ MODULE MC_Algebra ------------------------------
(* The simplifier as a rewriting system, run from every small well-typed       *)
(* expression: every rewrite keeps the meaning and the type and shrinks the    *)
(* expression, so simplification terminates and never changes a result.        *)
(* Emits the expressions, which are replayed into the code.                    *)
EXTENDS Algebra, Json, IOUtils
CONSTANTS Shape, Label, Depth2    \* Depth2: also sums/products nested one deeper
Sha == <<2>>
Shb == <<2,2>>
Shc == <<1,2>>
Shw == <<3>>
Shx == <<2,1,2>>
VARIABLES t, mean
vars == <<t, mean>>

Grid(s) == [shape |-> s, symbols |-> [n \in 1..(Len(s) + 1) |->
              SetToSortSeq({SetToSortSeq(S, LAMBDA a, b: a < b) : S \in KSubsets(n - 1, 1..Len(s))},
                                     LAMBDA a, b: SumOver(Rng(a), LAMBDA x: Pow(2, x)) < SumOver(Rng(b), LAMBDA x: Pow(2, x)))]]
g0 == Grid(Shape)
SignOf(S, a) == EvenSign(Cardinality({x \in S : x > a}))
DMat(gr, n) == [r |-> NElem(gr, n + 1), c |-> NElem(gr, n),
              cols |-> [j \in 1..NElem(gr, n) |->
                 LET ci == ((j - 1) \div Cells0(gr)) + 1 l == (j - 1) % Cells0(gr) S == Rng(Syms(gr, n)[ci])
                 IN SetToSeq(UNION {DEntries(gr, S, a, l, SignOf(S, a)) : a \in (1..Dim(gr)) \ S})]]
g == [shape |-> Shape, symbols |-> g0.symbols, D |-> [n \in 1..Len(Shape) |-> DMat(g0, n - 1)]]
N == Len(Shape)
Vals(n, f(_)) == [i \in 1..NElem(g0, n) |-> f(i)]
Atoms == {[k |-> "D", n |-> n] : n \in 0..(N - 1)} \cup {[k |-> "dual", n |-> n] : n \in 0..(N - 1)}
         \cup {[k |-> "I", n |-> n] : n \in 0..N}
         \cup {[k |-> "Z", n |-> n, m |-> m] : n \in 0..N, m \in 0..N}
         \cup {[k |-> "diag", n |-> n, values |-> Vals(n, LAMBDA i: <<i - 2, 1>>)] : n \in 0..N}
         \cup {[k |-> "diag", n |-> n, values |-> Vals(n, LAMBDA i: IF i % 2 = 0 THEN <<1, 2>> ELSE <<3, 1>>)] : n \in {0, N}}
         \cup {[k |-> "diag", n |-> n, values |-> Vals(n, LAMBDA i: ROne)] : n \in {0}}
         \cup {[k |-> "diag", n |-> n, values |-> Vals(n, LAMBDA i: RZero)] : n \in {N}}
         \cup {[k |-> "S", n |-> 0]}
Typed(S) == {x \in S : TypeOf(x) # << >>}
Pairs(A, B) == Typed({[k |-> "mul", xs |-> <<a, b>>] : a \in A, b \in B} \cup {[k |-> "add", xs |-> <<a, b>>] : a \in A, b \in B})
Two == Pairs(Atoms, Atoms)
Core == {a \in Atoms : a.k # "S" /\ (a.k = "Z" => (a.n = a.m \/ a.n = a.m + 1))}
Three == Typed({[k |-> "mul", xs |-> <<a, b, c>>] : a \in Core, b \in Core, c \in Core})
Nested == Typed({[k |-> "add", xs |-> <<a, b>>] : a \in Pairs(Core, Core), b \in Core}
                \cup {[k |-> "mul", xs |-> <<a, b>>] : a \in Core, b \in Pairs(Core, Core)})
Exprs == Typed(Atoms) \cup Two \cup Three \cup (IF Depth2 THEN Nested ELSE {})

Init == t \in Exprs /\ mean = Meaning(g, t)
Next == t' \in Steps(g, t) /\ mean' = mean
Spec == Init /\ [][Next]_vars
KeepsMeaning == Meaning(g, t) = mean
WellTyped == TypeOf(t) # << >>
Shrinks == [][TreeSize(t') < TreeSize(t)]_vars
\* the laws the algebra rests on
Adjoint == TypeOf(t) # << >> => Meaning(g, [k |-> "T", x |-> t]) = DTrans(mean, DCols(mean))
ReverseProduct == t.k = "mul" => Meaning(g, [k |-> "mul", xs |-> [i \in Idx(t.xs) |-> [k |-> "T", x |-> t.xs[Len(t.xs) + 1 - i]]]]) = DTrans(mean, DCols(mean))
Dump == TLCGet("distinct") > 0 /\ ndJsonSerialize(IOEnv.GENDIR \o "/expr-" \o Label \o ".ndjson",
          SetToSeq({[shape |-> Shape, t |-> x] : x \in Exprs}))
=============================================================================
