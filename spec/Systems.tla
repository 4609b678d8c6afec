------------------------------- MODULE Systems -------------------------------
(* Linear systems A x = B y of operators between the forms of a periodic grid. *)
(* A system value has g (grid), scale, A and B (block matrices of rationals),  *)
(* L and R (degrees of the rows and columns).                                  *)
EXTENDS Blocks

HodgeMat(g, scale, n) == Meaning0(g, [k |-> "H", n |-> n, scale |-> scale])
DMatR(g, n) == Meaning0(g, [k |-> "D", n |-> n])
DTMatR(g, n) == Meaning0(g, [k |-> "dual", n |-> n])
\* the canonical system: hodges on the diagonal, derivatives below, codifferentials above
CanonBlock(g, scale, i, j) ==
   IF i = j THEN HodgeMat(g, scale, i)
   ELSE IF i = j + 1 THEN DMul(HodgeMat(g, scale, i), DMatR(g, j))
   ELSE IF j = i + 1 THEN DMul(DTMatR(g, i), HodgeMat(g, scale, j))
   ELSE DZero(NElem(g, i), NElem(g, j))
EyeBlock(g, i, j) == IF i = j THEN DDiag([k \in 1..NElem(g, i) |-> ROne]) ELSE DZero(NElem(g, i), NElem(g, j))
CanonicalSys(g, scale) ==
   LET N == Dim(g) IN
   [g |-> g, scale |-> scale, L |-> [i \in 1..(N + 1) |-> i - 1], R |-> [i \in 1..(N + 1) |-> i - 1],
    A |-> TLCEval([i \in 1..(N + 1) |-> TLCEval([j \in 1..(N + 1) |-> CanonBlock(g, scale, i - 1, j - 1)])]),
    B |-> TLCEval([i \in 1..(N + 1) |-> TLCEval([j \in 1..(N + 1) |-> EyeBlock(g, i - 1, j - 1)])])]
VecMulR(a, b) == TLCEval([i \in Idx(a) |-> RMul(a[i], b[i])])
VecSubR(a, b) == TLCEval([i \in Idx(a) |-> RSub(a[i], b[i])])
VecScaleR(k, a) == TLCEval([i \in Idx(a) |-> RMul(k, a[i])])
VecAddR(a, b) == TLCEval([i \in Idx(a) |-> RAdd(a[i], b[i])])
BlockMulR(A, B) == TLCEval([i \in Idx(A) |-> TLCEval([k \in Idx(B[1]) |->
      FoldLeft(LAMBDA acc, j: DAdd(acc, DMul(A[i][j], B[j][k])), DMul(A[i][1], B[1][k]), [j \in 1..(Len(B) - 1) |-> j + 1])])])
BlockTransR(A) == TLCEval([j \in Idx(A[1]) |-> TLCEval([i \in Idx(A) |-> DTrans(A[i][j], DCols(A[i][j]))])])
BlockApplyR(A, x) == TLCEval([i \in Idx(A) |-> LET t(j) == DApplyTo(A[i][j], x[j]) IN
      FoldLeft(LAMBDA acc, j: VecAddR(acc, t(j)), t(1), [j \in 1..(Len(x) - 1) |-> j + 1])])
VecSub(a, b) == TLCEval([i \in Idx(a) |-> VecSubR(a[i], b[i])])
SliceSys(s, rows, cols) == [s EXCEPT !.A = Pick2(s.A, rows, cols), !.B = Pick2(s.B, rows, rows),
                                     !.L = [i \in Idx(rows) |-> s.L[rows[i]]], !.R = [j \in Idx(cols) |-> s.R[cols[j]]]]
NormalSys(s) == LET AT == BlockTransR(s.A) IN [s EXCEPT !.A = BlockMulR(AT, s.A), !.B = BlockMulR(AT, s.B), !.L = s.R]
NormalNE(s) == [s EXCEPT !.A = BlockMulR(s.A, BlockTransR(s.A)), !.R = s.L]
ZeroSys(s, i, j) == [s EXCEPT !.A[i][j] = DZero(Len(s.A[i][j]), DCols(s.A[i][j]))]
ScaleRightSys(s, i, j, v) == [s EXCEPT !.A[i][j] = DMul(s.A[i][j], DDiag(v))]
ScaleLeftSys(s, i, j, v) == [s EXCEPT !.A[i][j] = DMul(DDiag(v), s.A[i][j])]
\* diffusion: potential and flux; flux alone; potential, flux and the curl of the flux
DiffusionSys(g, scale, f, kind) ==
   LET c == CanonicalSys(g, scale)
       neg == [i \in Idx(f.constraint) |-> RNeg(f.constraint[i])]
       rows == CASE kind = "first" -> <<1, 2>> [] kind = "flux" -> <<1, 3>> [] OTHER -> <<1, 2, 3>>
       s == SliceSys(c, rows, IF kind = "flux" THEN <<2>> ELSE <<1, 2>>)
   IN CASE kind = "first" -> ScaleLeftSys(ScaleRightSys(ScaleRightSys(ScaleRightSys(s, 1, 1, neg), 1, 2, f.conductance), 2, 2, f.resistance), 2, 1, f.foo)
        [] kind = "flux"  -> ScaleRightSys(ScaleRightSys(s, 1, 1, f.conductance), 2, 1, f.resistance)
        [] OTHER -> ScaleRightSys(ScaleRightSys(ScaleRightSys(ScaleRightSys(s, 1, 1, neg), 1, 2, f.conductance), 2, 2, f.resistance), 3, 2, f.resistance)
CoarsenField(g, n, v) == LET h == Half(g) IN [i \in 1..NElem(h, n) |->
      LET row == CoarsenRow(g, ((i - 1) \div Cells0(h)) + 1, (i - 1) % Cells0(h), n)
      IN RSumSet(DOMAIN row, LAMBDA q: RMul(row[q], v[q]))]
\* the material fields of a coarse problem are the coarsened fields
CoarseFields(g, f) == [constraint |-> CoarsenField(g, 0, f.constraint), conductance |-> CoarsenField(g, 1, f.conductance),
                       resistance |-> CoarsenField(g, 1, f.resistance), foo |-> CoarsenField(g, 1, f.foo)]

SameBlocks(A, B) == /\ Len(A) = Len(B)
                    /\ \A i \in Idx(A) : Len(A[i]) = Len(B[i]) /\ \A j \in Idx(A[i]) : RatMatEq(A[i][j], B[i][j])
SysMatches(v, s) ==
   CASE v.L # s.L -> {"RowDegrees"}
     [] v.R # s.R -> {"ColumnDegrees"}
     [] ~SameBlocks(v.A, s.A) -> {"SystemMatrix"}
     [] ~SameBlocks(v.B, s.B) -> {"RightHandMatrix"}
     [] OTHER -> {}
\* e.how derives a system from the presented state s (a grid for canonical and diffusion)
Derived(e, s, fine) ==
   CASE e.how = "canonical" -> CanonicalSys(s, e.scale)
     [] e.how = "relaxed"   -> SliceSys(CanonicalSys(s, e.scale), e.rows, e.cols)
     [] e.how = "diffusion" -> DiffusionSys(s, e.scale, e.fields, e.kind)
     [] e.how = "coarsened" -> DiffusionSys(s, e.scale, CoarseFields(fine, e.fields), e.kind)
     [] e.how = "coarsened2" -> DiffusionSys(s, e.scale, CoarseFields(Half(fine), CoarseFields(fine, e.fields)), e.kind)
     [] e.how = "slice"     -> SliceSys(s, e.rows, e.cols)
     [] e.how = "normal"    -> NormalSys(s)
     [] e.how = "normal_ne" -> NormalNE(s)
     [] e.how = "zero"      -> ZeroSys(s, e.i, e.j)
     [] e.how = "right"     -> ScaleRightSys(s, e.i, e.j, e.values)
     [] e.how = "left"      -> ScaleLeftSys(s, e.i, e.j, e.values)
     [] OTHER -> s
System_Fail(e, s, fine) ==
   IF Raised(e) THEN {"SystemRaised"}
   ELSE IF Has(e, "scale") /\ ~REq(e.val.scale, e.scale) THEN {"SystemScale"}
   ELSE SysMatches(e.val, Derived(e, s, fine))
\* applications; all vectors are block vectors of rationals
SysVec_Fail(e, s) ==
   LET f == CASE e.how = "residual" -> VecSub(BlockApplyR(s.A, e.x), BlockApplyR(s.B, e.y))
              [] e.how = "diagonal" -> [i \in Idx(s.A) |-> [p \in Idx(s.A[i][i]) |-> s.A[i][i][p][p]]]
              [] e.how = "allocate_x" -> [j \in Idx(s.R) |-> [p \in 1..NElem(s.g, s.R[j]) |-> RZero]]
              [] e.how = "allocate_y" -> [j \in Idx(s.L) |-> [p \in 1..NElem(s.g, s.L[j]) |-> RZero]]
              [] e.how \in {"restrict_primal", "restrict_dual"} ->
                   LET deg == IF e.how = "restrict_primal" THEN s.R ELSE s.L
                       h == Half(s.g)
                       N == Dim(s.g)
                       k(n) == IF e.how = "restrict_primal" THEN ROne
                               ELSE RMul(RPow(RMul(<<2, 1>>, s.scale), N - 2 * n), RPow(s.scale, 2 * n - N))
                   IN [b \in Idx(deg) |-> [i \in 1..NElem(h, deg[b]) |->
                        LET row == CoarsenRow(s.g, ((i - 1) \div Cells0(h)) + 1, (i - 1) % Cells0(h), deg[b])
                        IN RMul(k(deg[b]), RSumSet(DOMAIN row, LAMBDA q: RMul(row[q], e.y[b][q])))]]
              [] e.how = "interpolate" ->
                   [b \in Idx(s.R) |-> [i \in 1..NElem(s.g, s.R[b]) |->
                        LET row == RefineRow(s.g, ((i - 1) \div Cells0(s.g)) + 1, (i - 1) % Cells0(s.g), s.R[b])
                        IN RSumSet(DOMAIN row, LAMBDA q: RMul(row[q], e.x[b][q]))]]
   IN CASE Raised(e) -> {"SystemRaised"}
        [] Sizes(e.out) # Sizes(f) -> {"SystemVectorLayout"}
        [] \E b \in Idx(f) : \E p \in Idx(f[b]) : ~REq(e.out[b][p], f[b][p]) -> {"SystemVector"}
        [] OTHER -> {}

---------------------------------------------------------------------------
(* relaxation: one sweep of a smoother, applied to x with right hand side y.   *)
(* Results are compared as fixed-point numbers out/1024 (the code divides).    *)
DiagInv(A) == TLCEval([i \in Idx(A) |-> TLCEval([p \in Idx(A[i][i]) |-> RInv(A[i][i][p][p])])])
RowDot(row, x) == LET t(j) == DApplyTo(row[j], x[j]) IN FoldLeft(LAMBDA acc, j: VecAddR(acc, t(j)), t(1), [j \in 1..(Len(x) - 1) |-> j + 1])
Jacobi(s, x, y, relax) ==
   LET n == NormalSys(s)
       r == BlockApplyR(BlockTransR(s.A), VecSub(BlockApplyR(s.A, x), BlockApplyR(s.B, y)))
       d == DiagInv(n.A)
   IN [i \in Idx(x) |-> VecSubR(x[i], VecScaleR(RMul(relax, <<1, 2>>), VecMulR(d[i], r[i])))]
GaussSeidelNR(s, x, y) ==      \* unknowns one block at a time
   LET n == NormalSys(s)
       by == BlockApplyR(n.B, y)
       d == DiagInv(n.A)
   IN FoldLeft(LAMBDA cur, i: [cur EXCEPT ![i] = VecSubR(@, VecScaleR(<<1, 2>>, VecMulR(d[i], VecSubR(RowDot(n.A[i], cur), by[i]))))],
               x, [i \in Idx(x) |-> i])
GaussSeidelNE(s, x, y) ==      \* equations one block at a time; the correction is added
   LET by == BlockApplyR(s.B, y)
       d == DiagInv(NormalNE(s).A)
       AT == BlockTransR(s.A)
   IN FoldLeft(LAMBDA cur, i: LET r == VecScaleR(<<1, 2>>, VecMulR(d[i], VecSubR(RowDot(s.A[i], cur), by[i])))
                              IN [j \in Idx(cur) |-> VecSubR(cur[j], DApplyTo(AT[j][i], r))],
               x, [i \in Idx(s.A) |-> i])
\* |v/1024 - q| <= 1/512
CloseTo(v, q) == Abs(v * q[2] - 1024 * q[1]) <= 2 * q[2]
CloseVec(v, q) == /\ Sizes(v) = Sizes(q) /\ \A b \in Idx(v) : \A p \in Idx(v[b]) : CloseTo(v[b][p], q[b][p])
Relax_Fail(e, s) ==
   CASE Raised(e) -> {"RelaxationRaised"}
     [] e.x_after # e.x \/ e.y_after # e.y -> {"RelaxationKeepsArguments"}
     [] ~e.fixed /\ ~CloseVec(e.out, CASE e.how = "jacobi" -> Jacobi(s, e.x, e.y, e.relax)
                         [] e.how = "overrelax" -> FoldLeft(LAMBDA cur, k: Jacobi(s, cur, e.y, k), e.x, e.knots)
                         [] e.how = "nr" -> GaussSeidelNR(s, e.x, e.y)
                         [] e.how = "ne" -> GaussSeidelNE(s, e.x, e.y)
                         [] OTHER -> e.x) -> {"RelaxationStep"}
     [] e.fixed /\ ~CloseVec(e.out, e.x) -> {"ExactSolutionIsFixed"}
     [] e.fixed /\ VecSub(BlockApplyR(s.A, e.x), BlockApplyR(s.B, e.y)) # [i \in Idx(e.y) |-> [p \in Idx(e.y[i]) |-> RZero]] -> {"HarnessNotASolution"}
     [] OTHER -> {}
=============================================================================
