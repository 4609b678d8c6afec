------------------------------- MODULE Algebra -------------------------------
(* Expressions over the operators of a periodic grid g, and what they mean: a  *)
(* dense matrix of rationals.  An expression is a tree                         *)
(*   [k |-> "D", n], "dual", "Z" (n, m: rows n-forms, columns m-forms), "I",   *)
(*   "diag" (n, values), "H" (n, scale), "S" (n), "mul"/"add" (xs), "T" (x),   *)
(*   "simp" (x), "inv" (x, a diagonal).                                        *)
EXTENDS Stencil

DZero(r, c) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> RZero])])
DDiag(v) == TLCEval([i \in Idx(v) |-> TLCEval([j \in Idx(v) |-> IF i = j THEN RNorm(v[i][1], v[i][2]) ELSE RZero])])
DTrans(M, c) == TLCEval([j \in 1..c |-> TLCEval([i \in Idx(M) |-> M[i][j]])])
DCols(M) == IF M = << >> THEN 0 ELSE Len(M[1])
DAdd(A, B) == TLCEval([i \in Idx(A) |-> TLCEval([j \in Idx(A[i]) |-> RAdd(A[i][j], B[i][j])])])
DScale(k, A) == TLCEval([i \in Idx(A) |-> TLCEval([j \in Idx(A[i]) |-> RMul(k, A[i][j])])])
DRow(a, B) == LET nz == SelectSeq([k \in Idx(a) |-> k], LAMBDA k: a[k][1] # 0) IN
              TLCEval([j \in Idx(B[1]) |-> FoldLeft(LAMBDA acc, k: IF B[k][j][1] = 0 THEN acc ELSE RAdd(acc, RMul(a[k], B[k][j])), RZero, nz)])
DMul(A, B) == TLCEval([i \in Idx(A) |-> DRow(A[i], B)])
DSparse(M) == LET ent == [j \in 1..M.c |-> Rng(M.cols[j])] IN
              TLCEval([i \in 1..M.r |-> TLCEval([j \in 1..M.c |-> LET q == {x \in ent[j] : x[1] = i} IN RInt(SumOver(q, LAMBDA x: x[2]))])])
DApplyTo(A, x) == TLCEval([i \in Idx(A) |-> FoldLeft(LAMBDA acc, j: RAdd(acc, RMul(A[i][j], x[j])), RZero, [j \in Idx(x) |-> j])])

Meaning0(g, t) ==
   CASE t.k = "D"    -> DSparse(g.D[t.n + 1])
     [] t.k = "dual" -> DTrans(DSparse(g.D[t.n + 1]), NElem(g, t.n))
     [] t.k = "Z"    -> DZero(NElem(g, t.n), NElem(g, t.m))
     [] t.k = "I"    -> DDiag([i \in 1..NElem(g, t.n) |-> ROne])
     [] t.k = "diag" -> DDiag(t.values)
     [] t.k = "H"    -> DDiag([i \in 1..NElem(g, t.n) |-> RPow(t.scale, Dim(g) - 2 * t.n)])
     [] t.k = "S"    -> [i \in 1..NElem(g, t.n) |->
                           LET row == SmoothRow(g, ((i - 1) \div Cells0(g)) + 1, (i - 1) % Cells0(g), t.n, TRUE)
                           IN [j \in 1..NElem(g, t.n) |-> IF j \in DOMAIN row THEN row[j] ELSE RZero]]
RECURSIVE Meaning(_, _)
Meaning(g, t) ==
   CASE t.k = "mul" -> LET ms == [i \in Idx(t.xs) |-> Meaning(g, t.xs[i])] IN
                       FoldLeft(LAMBDA acc, i: DMul(acc, ms[i]), ms[1], [i \in 1..(Len(ms) - 1) |-> i + 1])
     [] t.k = "add" -> LET ms == [i \in Idx(t.xs) |-> Meaning(g, t.xs[i])] IN
                       FoldLeft(LAMBDA acc, i: DAdd(acc, ms[i]), ms[1], [i \in 1..(Len(ms) - 1) |-> i + 1])
     [] t.k = "T"   -> LET m == Meaning(g, t.x) IN DTrans(m, DCols(m))
     [] t.k = "simp" -> Meaning(g, t.x)
     [] t.k = "inv" -> LET m == Meaning(g, t.x) IN [i \in Idx(m) |-> [j \in Idx(m[i]) |-> IF i = j THEN RInv(m[i][j]) ELSE RZero]]
     [] OTHER -> Meaning0(g, t)
\* type of an expression: <<degree of the rows, degree of the columns>>; << >> when ill-typed
RECURSIVE TypeOf(_)
TypeOf(t) ==
   CASE t.k = "D" -> <<t.n + 1, t.n>>
     [] t.k = "dual" -> <<t.n, t.n + 1>>
     [] t.k = "Z" -> <<t.n, t.m>>
     [] t.k \in {"I", "diag", "H", "S"} -> <<t.n, t.n>>
     [] t.k = "mul" -> LET ts == [i \in Idx(t.xs) |-> TypeOf(t.xs[i])] IN
          IF (\E i \in Idx(ts) : ts[i] = << >>) \/ (\E i \in 1..(Len(ts) - 1) : ts[i][2] # ts[i + 1][1]) THEN << >> ELSE <<ts[1][1], ts[Len(ts)][2]>>
     [] t.k = "add" -> LET ts == {TypeOf(t.xs[i]) : i \in Idx(t.xs)} IN IF Cardinality(ts) = 1 THEN CHOOSE x \in ts : TRUE ELSE << >>
     [] t.k = "T" -> LET a == TypeOf(t.x) IN IF a = << >> THEN a ELSE <<a[2], a[1]>>
     [] OTHER -> TypeOf(t.x)

RatMatEq(A, B) == /\ Len(A) = Len(B)
                  /\ \A i \in Idx(A) : Len(A[i]) = Len(B[i]) /\ \A j \in Idx(A[i]) : RNorm(A[i][j][1], A[i][j][2]) = B[i][j]
Expr_Fail(e, g) ==
   IF Raised(e) THEN {"ExpressionRaised"}
   ELSE LET M == Meaning(g, e.t)
            ty == TypeOf(e.t)
            MT == DTrans(M, DCols(M))
        IN CASE e.shape # <<g.sizes[ty[1] + 1], g.sizes[ty[2] + 1]>> -> {"ExpressionShape"}
             [] ~RatMatEq(e.dense, M) -> {"ExpressionMeans"}
             [] ~RatMatEq(e.simplified, M) -> {"SimplifyKeepsMeaning"}
             [] ~RatMatEq(e.denseT, MT) -> {"TransposeIsAdjoint"}
             [] ~RatMatEq(e.simplifiedT, MT) -> {"SimplifyKeepsMeaning"}
             [] ~RatMatEq(e.denseTT, M) -> {"TransposeTwiceIsIdentity"}
             [] ~RatMatEq(e.linear, M) \/ ~RatMatEq(e.linearT, MT) -> {"LinearOperatorIsSameMap"}
             [] ~RatMatEq(<<e.y>>, <<DApplyTo(M, e.x)>>) -> {"ApplicationMeans"}
             [] Len(e.diagonal) > 0 /\ ~RatMatEq(DDiag(e.diagonal), M) -> {"ClaimedDiagonalIsTrue"}
             [] OTHER -> {}
\* e.a applied to / composed with / added to something that does not fit
Refuse_Fail(e, g) ==
   LET a == TypeOf(e.a)
       sz(t) == <<g.sizes[t[1] + 1], g.sizes[t[2] + 1]>>
       fits == CASE e.how = "mul" -> sz(a)[2] = sz(TypeOf(e.b))[1]
                 [] e.how = "add" -> sz(a) = sz(TypeOf(e.b))
                 [] OTHER -> sz(a)[2] = e.arg
   IN CASE ~fits /\ ~Raised(e) -> {"MismatchRefused"}
        [] fits /\ Raised(e) -> {"FittingAccepted"}
        [] OTHER -> {}

---------------------------------------------------------------------------
(* Simplification as a rewriting system on expression trees (n-ary nodes).     *)
IsDiag(t) == t.k \in {"diag", "H"}     \* identities are dropped instead
ZeroOf(t) == LET ty == TypeOf(t) IN [k |-> "Z", n |-> ty[1], m |-> ty[2]]
Values(g, t) == LET m == Meaning0(g, t) IN [i \in Idx(m) |-> m[i][i]]
Splice(s, i, k, ins) == SubSeq(s, 1, i - 1) \o ins \o SubSeq(s, i + k, Len(s))     \* replace k items at i
Steps0(g, t) ==     \* rewrites at the root
   IF t.k = "mul" THEN
        (IF Len(t.xs) = 1 THEN {t.xs[1]} ELSE {})
        \cup (IF Len(t.xs) > 1 /\ \E i \in Idx(t.xs) : t.xs[i].k = "Z" THEN {ZeroOf(t)} ELSE {})
        \cup (IF \E i \in 1..(Len(t.xs) - 1) : t.xs[i].k = t.xs[i + 1].k /\ t.xs[i].k \in {"D", "dual"} THEN {ZeroOf(t)} ELSE {})
        \cup {[t EXCEPT !.xs = Splice(@, i, 1, t.xs[i].xs)] : i \in {i \in Idx(t.xs) : t.xs[i].k = "mul"}}
        \cup {[t EXCEPT !.xs = Omit(@, i)] : i \in {i \in Idx(t.xs) : t.xs[i].k = "I" /\ Len(t.xs) > 1}}
        \cup {[t EXCEPT !.xs = Splice(@, i, 2, <<[k |-> "diag", n |-> t.xs[i].n,
                    values |-> [j \in 1..NElem(g, t.xs[i].n) |-> RMul(Values(g, t.xs[i])[j], Values(g, t.xs[i + 1])[j])]]>>)] :
                 i \in {i \in 1..(Len(t.xs) - 1) : IsDiag(t.xs[i]) /\ IsDiag(t.xs[i + 1])}}
   ELSE IF t.k = "add" THEN
        (IF Len(t.xs) = 1 THEN {t.xs[1]} ELSE {})
        \cup {[t EXCEPT !.xs = Omit(@, i)] : i \in {i \in Idx(t.xs) : t.xs[i].k = "Z" /\ Len(t.xs) > 1}}
        \cup {[t EXCEPT !.xs = Splice(@, i, 1, t.xs[i].xs)] : i \in {i \in Idx(t.xs) : t.xs[i].k = "add"}}
   ELSE IF t.k = "diag" THEN
        (IF \A i \in Idx(t.values) : t.values[i] = RZero THEN {[k |-> "Z", n |-> t.n, m |-> t.n]} ELSE {})
        \cup (IF \A i \in Idx(t.values) : t.values[i] = ROne THEN {[k |-> "I", n |-> t.n]} ELSE {})
   ELSE {}
RECURSIVE Steps(_, _)
Steps(g, t) ==
   Steps0(g, t) \cup
   (IF t.k \in {"mul", "add"} THEN UNION {{[t EXCEPT !.xs[i] = s] : s \in Steps(g, t.xs[i])} : i \in Idx(t.xs)} ELSE {})
RECURSIVE TreeSize(_)
TreeSize(t) == IF t.k \in {"mul", "add"} THEN 1 + SumOver(Idx(t.xs), LAMBDA i: TreeSize(t.xs[i]))
               ELSE IF t.k = "diag" THEN 2 ELSE IF t.k = "I" \/ t.k = "Z" THEN 1 ELSE 2
=============================================================================
