--------------------------------- MODULE Dense ---------------------------------
(* Small dense matrices, simplices and boxes, one at a time: what the helpers   *)
(* of linear algebra and geometry answer for each entry of a batch.  Rational   *)
(* matrices are <<D, M>>, rational vectors <<D, x>>, rational numbers <<p, q>>. *)
EXTENDS Moves

Tr(M) == [j \in Idx(M[1]) |-> [i \in Idx(M) |-> M[i][j]]]
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
MScale(k, M) == [i \in Idx(M) |-> VScale(k, M[i])]
MSub(A, B) == [i \in Idx(A) |-> VSub(A[i], B[i])]
TraceOf(M) == SumOver(Idx(M), LAMBDA i: M[i][i])
Square(M) == Len(M) = Len(M[1])
RECURSIVE MPower(_, _)
MPower(A, k) == IF k = 0 THEN Ident(Len(A)) ELSE MatTimes(A, MPower(A, k - 1))
Diffs(ps) == [i \in 1..(Len(ps) - 1) |-> VSub(ps[i + 1], ps[1])]
SimplexGram(ps) == LET V == Diffs(ps) IN Det([i \in Idx(V) |-> [j \in Idx(V) |-> Dot(V[i], V[j])]])
Minor(M, k) == [i \in 1..k |-> [j \in 1..k |-> M[i][j]]]
Positive(M) == \A k \in Idx(M) : Det(Minor(M, k)) > 0

\* the four conditions of Penrose: D X is the pseudo inverse of A
PenroseOK(A, X, D) ==
   LET AX == MatTimes(A, X) XA == MatTimes(X, A) IN
   /\ Len(X) = Len(A[1]) /\ Len(X[1]) = Len(A)
   /\ MatTimes(AX, A) = MScale(D, A)
   /\ MatTimes(XA, X) = MScale(D, X)
   /\ AX = Tr(AX) /\ XA = Tr(XA)
\* Q / D is the orthonormal matrix closest to A (a rotation, if so asked): Q^T A is symmetric, and turning any two of its axes would not bring it closer
OrthonormalOK(Q, D) == IF Len(Q) <= Len(Q[1]) THEN MatTimes(Q, Tr(Q)) = MScale(D * D, Ident(Len(Q)))
                       ELSE MatTimes(Tr(Q), Q) = MScale(D * D, Ident(Len(Q[1])))
ClosestRotation(A, Q) ==
   LET S == MatTimes(Tr(Q), A) n == Len(S) IN
   /\ S = Tr(S) /\ Det(Q) > 0
   /\ IF n = 2 THEN TraceOf(S) > 0 ELSE Positive(MSub(MScale(TraceOf(S), Ident(n)), S))
ClosestOrthonormal(A, Q) ==
   IF Len(Q) <= Len(Q[1]) THEN LET S == MatTimes(Q, Tr(A)) IN S = Tr(S) /\ Positive(S)
   ELSE LET S == MatTimes(Tr(Q), A) IN S = Tr(S) /\ Positive(S)

\* x.out is 10^4 times a solution of a * out = b / n, up to what the rounding and the tolerance of the iteration (3 * 10^-5 of the first residual) account for
SolvesTo(x, b, n) ==
   LET r == MatTimes(x.a, [i \in Idx(x.out) |-> <<x.out[i]>>])
       size(i) == SumOver(Idx(b), LAMBDA j: Abs(x.a[i][j]))
       first == SumOver(Idx(b), LAMBDA i: Abs(SumOver(Idx(b), LAMBDA j: x.a[i][j] * x.g[j])) + size(i) + Abs(x.b[i]))
   IN Len(x.out) = Len(b) /\ \A i \in Idx(b) : Abs(n * r[i][1] - 10000 * b[i]) <= n * (size(i) + first + 2)
\* what each helper answers for the entry x
RightFor(name, x) ==
   CASE name = "dot" -> x.out = Dot(x.a, x.b)
     [] name = "norm2" -> LET n == Dot(x.a, x.a) IN \A i \in Idx(x.a) :                       \* squares with the sign of the component
           x.out[i][1] * (IF n = 0 THEN 1 ELSE n) = Sign(x.a[i]) * x.a[i] * x.a[i] * x.out[i][2]
     [] name = "norms2" -> x.out = Dot(x.a, x.a)
     [] name = "norms1" -> x.out = SumOver(Idx(x.a), LAMBDA i: Abs(x.a[i]))
     [] name = "normsmax" -> x.out = Max({Abs(x.a[i]) : i \in Idx(x.a)})
     [] name = "norm1" -> LET n == SumOver(Idx(x.a), LAMBDA i: Abs(x.a[i])) IN \A i \in Idx(x.a) : x.out[i][1] * (IF n = 0 THEN 1 ELSE n) = x.a[i] * x.out[i][2]
     [] name = "normmax" -> LET n == Max({Abs(x.a[i]) : i \in Idx(x.a)}) IN \A i \in Idx(x.a) : x.out[i][1] * (IF n = 0 THEN 1 ELSE n) = x.a[i] * x.out[i][2]
     [] name = "adjoint" -> MatTimes(x.a, Tr(x.out)) = MScale(Det(x.a), Ident(3))
     [] name = "null" -> x.out = VAdd(VAdd(Cross3(x.a[2], x.a[3]), Cross3(x.a[3], x.a[1])), Cross3(x.a[1], x.a[2]))
     [] name = "inverse" -> MatTimes(x.a, x.out[2]) = MScale(x.out[1], Ident(3))
     [] name = "inverse_transpose" -> MatTimes(x.a, Tr(x.out[2])) = MScale(x.out[1], Ident(3))
     [] name = "pinv" -> PenroseOK(x.a, x.out[2], x.out[1])
     [] name = "power" -> IF x.p >= 0 THEN x.out[2] = MScale(x.out[1], MPower(x.a, x.p))
                          ELSE MatTimes(MPower(x.a, 0 - x.p), x.out[2]) = MScale(x.out[1], Ident(Len(x.a)))
     [] name = "root" -> MatTimes(x.out[2], x.out[2]) = MScale(x.out[1] * x.out[1], x.a) /\ Positive(x.out[2])
     [] name = "quarter" -> LET u == x.u[2] v == x.v[2] d2 == x.u[1] * x.u[1] n == Len(u) IN
           \* everything perpendicular to the plane stays, u turns into -v and v into u
           \A i \in 1..n : \A j \in 1..n :
              d2 * x.out[2][i][j] = x.out[1] * ((IF i = j THEN d2 ELSE 0) - u[i] * u[j] - v[i] * v[j] + u[i] * v[j] - v[i] * u[j])
     [] name = "angle" -> LET n == Len(x.a[2]) IN x.out[1] * 2 * x.a[1] = x.out[2] * (TraceOf(x.a[2]) - (n - 2) * x.a[1])
     [] name = "rotation" -> OrthonormalOK(x.out[2], x.out[1]) /\ ClosestRotation(x.a, x.out[2])
     [] name = "orthonormal" -> OrthonormalOK(x.out[2], x.out[1]) /\ ClosestOrthonormal(x.a, x.out[2])
     [] name = "signed_volume" -> x.out = Det(Diffs(x.p))
     [] name = "unsigned_volume" -> x.out = SimplexGram(x.p)
     [] name = "angles" -> \A i \in 1..3 :                                                     \* squared cosines with their signs
           LET a == VSub(x.p[(i % 3) + 1], x.p[i]) b == VSub(x.p[((i + 1) % 3) + 1], x.p[i]) c == Dot(a, b)
           IN x.out[i][1] * Dot(a, a) * Dot(b, b) = Sign(c) * c * c * x.out[i][2]
     [] name = "segment_normals" -> \A a \in Idx(x.out) : x.out[a] = Det(<<Ident(Len(x.out))[a]>> \o Diffs(x.p))
     [] name = "simplex_normals" ->                                                            \* times 10^4
           LET near(y, z) == Abs(y) <= 3 + SumOver(Idx(z), LAMBDA a: Abs(z[a])) IN
           \A i \in Idx(x.p) :
              /\ Abs(Dot(x.out[i], x.out[i]) - 100000000) <= 50000
              /\ \A j, k \in Idx(x.p) \ {i} : LET d == VSub(x.p[j], x.p[k]) IN near(Dot(x.out[i], d), d)
              /\ \A j \in Idx(x.p) \ {i} : Dot(x.out[i], VSub(x.p[i], x.p[j])) > 0
              /\ (Len(x.p) = 3 /\ Len(x.p[1]) = 3) => LET c == Cross3(Diffs(x.p)[1], Diffs(x.p)[2]) IN near(Dot(x.out[i], c), c)
     [] name = "simplex_gradients" ->                                                          \* over (n - 1)!, for simplices that fill their space
           LET V == Abs(Det(Diffs(x.p))) IN
           \A i \in Idx(x.p) : \A j \in Idx(x.p) \ {i} :
              /\ Dot(x.out[i], VSub(x.p[i], x.p[j])) = V
              /\ \A k \in Idx(x.p) \ {i} : Dot(x.out[i], VSub(x.p[j], x.p[k])) = 0
     [] name = "centre" -> Len(x.out[2]) = Len(x.p[1]) /\ PowerOK(x.out, x.p, x.w)
     [] name = "barycentric" -> LET b == x.out[2] D == x.out[1] IN
           /\ Len(b) = Len(x.p) /\ SumOver(Idx(b), LAMBDA i: b[i]) = D
           /\ PowerOK(<<D, VSum([i \in Idx(b) |-> VScale(b[i], x.p[i])])>>, x.p, x.w)
     [] name = "wellcentred" ->                                                                \* all barycentric coordinates of the centre positive; borders either way
           LET b == x.centre[2] IN
           /\ SumOver(Idx(b), LAMBDA i: b[i]) = x.centre[1]
           /\ CircumOK(<<x.centre[1], VSum([i \in Idx(b) |-> VScale(b[i], x.p[i])])>>, x.p)
           /\ (\A i \in Idx(b) : b[i] # 0) => (x.out <=> \A i \in Idx(b) : b[i] > 0)
     [] name = "hypervolume" -> LET ds == SortSeq([i \in Idx(x.a) |-> Abs(x.a[i] - x.b[i])], LAMBDA p, q: p > q)
                                IN x.out = FoldLeft(LAMBDA p, q: p * q, 1, SubSeq(ds, 1, x.n))
     [] name = "regular_edge" -> x.out = Max({Abs(x.a[i] - x.b[i]) : i \in Idx(x.a)})
     \* symmetric systems: x.out solves a * out = b, times 10^4; with the mean left out, of both sides
     [] name = "cg" -> SolvesTo(x, x.b, 1)
     [] name = "cgmean" -> LET n == Len(x.b) t == SumOver(Idx(x.b), LAMBDA i: x.b[i]) IN
           /\ Abs(SumOver(Idx(x.out), LAMBDA i: x.out[i])) <= n
           /\ SolvesTo(x, [i \in Idx(x.b) |-> n * x.b[i] - t], n)
     [] name = "minres" -> SolvesTo(x, x.b, 1)
     [] OTHER -> FALSE
DenseNames == {"cg", "cgmean", "minres", "dot", "norm2", "norms2", "norms1", "normsmax", "norm1", "normmax", "adjoint", "null", "inverse", "inverse_transpose", "pinv", "power", "root", "quarter", "angle", "rotation",
   "orthonormal", "signed_volume", "unsigned_volume", "angles", "segment_normals", "simplex_normals", "simplex_gradients", "centre", "barycentric", "wellcentred", "hypervolume", "regular_edge"}
Dense_Fail(e) ==
   CASE e.op = "misshapen" -> IF Raised(e) /\ e.raised = "ValueError" THEN {} ELSE {"RefusesWrongShape"}
     [] ~(e.name \in DenseNames) -> {"UnknownOperation"}
     [] Raised(e) -> {"DenseRaised"}
     [] ~e.kept -> {"ArgumentsUnchanged"}
     [] Len(e.entries) # e.batch -> {"OneAnswerPerEntry"}
     [] \E i \in Idx(e.entries) : ~RightFor(e.name, e.entries[i]) -> {"RightAnswer"}
     [] OTHER -> {}
DenseOps == {"dense", "misshapen"}
=============================================================================
