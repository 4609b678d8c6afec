------------------------------ MODULE Multigrid ------------------------------
(* Multigrid cycles over a hierarchy of abstract linear equations, coarsest    *)
(* first.  An equation is a record of integer matrices, all arithmetic modulo  *)
(* the prime MgP:                                                              *)
(*   residual(x, y) = A x - y     smooth(x, y) = x - S (A x - y)               *)
(*   restrict(y) = R y   interpolate(x) = P x   solve(y, x) = C y + D x        *)
(* (R restricts to, P interpolates from, the next coarser level).              *)
EXTENDS Systems

MgP == 8191
MgN(a) == a % MgP
MgApply(M, x) == TLCEval([i \in Idx(M) |-> FoldLeft(LAMBDA acc, j: (acc + MgN(MgN(M[i][j]) * x[j])) % MgP, 0, [j \in Idx(x) |-> j])])
MgSub(a, b) == TLCEval([i \in Idx(a) |-> MgN(a[i] - b[i])])
MgAdd(a, b) == TLCEval([i \in Idx(a) |-> MgN(a[i] + b[i])])
MgZero(x) == [i \in Idx(x) |-> 0]
MgNorm(x) == TLCEval([i \in Idx(x) |-> MgN(x[i])])
MgResidual(q, x, y) == MgSub(MgApply(q.A, x), y)
MgSmooth(q, x, y) == MgSub(x, MgApply(q.S, MgResidual(q, x, y)))
MgSolve(q, y, x) == MgAdd(MgApply(q.C, y), MgApply(q.D, x))

\* what a cycle computes
RECURSIVE VCycle(_, _, _, _)
VCycle(h, n, x, y) ==
   IF n = 1 THEN MgSolve(h[1], y, x)
   ELSE LET x1 == MgSmooth(h[n], x, y)
            r == MgApply(h[n].R, MgResidual(h[n], x1, y))
            e == VCycle(h, n - 1, MgZero(r), r)
        IN MgSmooth(h[n], MgSub(x1, MgApply(h[n].P, e)), y)
RECURSIVE VRepeat(_, _, _, _, _)
VRepeat(h, n, x, y, k) == IF k = 0 THEN x ELSE VRepeat(h, n, VCycle(h, n, x, y), y, k - 1)
RECURSIVE FullCycle(_, _, _, _)
FullCycle(h, n, y, k) ==
   IF n = 1 THEN MgSolve(h[1], y, MgZero(y))
   ELSE VRepeat(h, n, MgApply(h[n].P, FullCycle(h, n - 1, MgApply(h[n].R, y), k)), y, k)
\* the order in which it visits the levels (evaluations of the residual are not observed)
RECURSIVE VLog(_)
VLog(n) == IF n = 1 THEN <<<<1, "solve">>>>
           ELSE <<<<n, "smooth">>, <<n, "restrict">>>> \o VLog(n - 1) \o <<<<n, "interpolate">>, <<n, "smooth">>>>
RECURSIVE LogTimes(_, _)
LogTimes(log, k) == IF k = 0 THEN << >> ELSE log \o LogTimes(log, k - 1)
RECURSIVE FullLog(_, _)
FullLog(n, k) == IF n = 1 THEN <<<<1, "solve">>>>
                 ELSE <<<<n, "restrict">>>> \o FullLog(n - 1, k) \o <<<<n, "interpolate">>>> \o LogTimes(VLog(n), k)

CycleMeaning(e) ==
   LET n == Len(e.h) y == MgNorm(e.y) x == IF e.x = << >> THEN MgZero(e.y) ELSE MgNorm(e.x) IN
   CASE e.how = "v" -> VCycle(e.h, n, x, y)
     [] e.how = "repeat" -> VRepeat(e.h, n, x, y, e.its)
     [] e.how = "full" -> FullCycle(e.h, n, y, e.its)
     [] e.how = "precondition" -> VCycle(e.h, n, MgZero(e.y), MgApply(e.Bi, y))
CycleLog(e) ==
   LET n == Len(e.h) IN
   CASE e.how \in {"v", "precondition"} -> VLog(n)
     [] e.how = "repeat" -> LogTimes(VLog(n), e.its)
     [] e.how = "full" -> FullLog(n, e.its)
Cycle_Fail(e) ==
   CASE Raised(e) -> {"CycleRaised"}
     [] e.y_after # e.y \/ e.x_after # e.x -> {"CycleKeepsArguments"}
     [] e.log # CycleLog(e) -> {"CycleOrder"}
     [] e.out # CycleMeaning(e) -> {"CycleResult"}
     [] OTHER -> {}
HierarchyOrder_Fail(e) ==
   CASE Raised(e) -> {"HierarchyRaised"}
     [] e.levels # [i \in 1..(e.n + 1) |-> i] -> {"HierarchyCoarsestFirst"}
     [] OTHER -> {}
=============================================================================
