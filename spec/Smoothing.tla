------------------------------ MODULE Smoothing -------------------------------
(* Smoothing and subdivision-surface rules.                                   *)
(* A crease assignment cr maps each dimension below the top to a set of       *)
(* elements; all top elements count as marked.  The governing dimension of a  *)
(* vertex is the lowest one with a marked element containing it; the vertex   *)
(* goes to the mean of the centroids of those elements.                       *)
EXTENDS Parity

Creases(e, T) == [d \in 0..T.n |-> IF d = T.n THEN 1..Count(T, T.n)
                                   ELSE IF \E i \in Idx(e.creases) : e.creases[i][1] = d
                                   THEN Rng(e.creases[CHOOSE i \in Idx(e.creases) : e.creases[i][1] = d][2]) ELSE {}]
\* marked elements of dimension d around every vertex
Around(T, d, marked) ==
   FoldSet(LAMBDA i, acc: FoldLeft(LAMBDA a, v: [a EXCEPT ![v] = @ \cup {i}], acc, T.E[d + 1][i]),
           [v \in 1..Count(T, 0) |-> {}], marked)
\* a weight row: [den, w] stands for the combination sum w[v] / den
AddTo(w, v, x) == IF v \in DOMAIN w THEN [w EXCEPT ![v] = @ + x] ELSE w @@ (v :> x)
SmoothRows(T, cr) ==
   LET near == [d \in 0..T.n |-> Around(T, d, cr[d])]
       gov(v) == CHOOSE d \in 0..T.n : near[d][v] # {} /\ \A c \in 0..(d - 1) : near[c][v] = {}
       row(v) == LET d == gov(v)
                     els == near[d][v]
                 IN [den |-> Cardinality(els) * Len(T.E[d + 1][1]),
                     w |-> FoldSet(LAMBDA i, acc: FoldLeft(LAMBDA a, u: AddTo(a, u, 1), acc, T.E[d + 1][i]), << >>, els)]
   IN [v \in 1..Count(T, 0) |-> row(v)]
\* refined vertices before smoothing: the mean of the corners of the element they stand for
OwnerRows(T, dims) ==
   LET own == Owners(T, dims)
   IN [v \in Idx(own) |-> LET c == T.E[own[v][1] + 1][own[v][2]]
                          IN [den |-> Len(c), w |-> [u \in Rng(c) |-> 1]]]
\* rows A after rows B (denominators of B divide K)
Compose(A, B, K) ==
   [v \in Idx(A) |-> [den |-> A[v].den * K,
        w |-> FoldSet(LAMBDA u, acc: FoldSet(LAMBDA x, a: AddTo(a, x, A[v].w[u] * B[u].w[x] * (K \div B[u].den)), acc, DOMAIN B[u].w),
                      << >>, DOMAIN A[v].w)]]
\* marked elements carried to the refinement
Carry(how, T, R, cr) ==
   [d \in 0..R.n |-> IF d = R.n THEN 1..Count(R, R.n)
                     ELSE IF cr[d] = {} THEN {} ELSE {q[1] : q \in {p \in Inside(how, T, R, d) : p[2] \in cr[d]}}]
\* how = "none": smoothing T itself.  Otherwise T is refined into R, then smoothed if e.smooth.
WantedRows(e, T, R) ==
   IF e.how = "none" THEN SmoothRows(T, Creases(e, T))
   ELSE LET start == OwnerRows(T, Dims(e.how, T))
        IN IF ~e.smooth THEN start
           ELSE Compose(SmoothRows(R, Carry(e.how, T, R, Creases(e, T))), start, Pow(2, T.n))
SameRow(got, want) ==
   /\ Cardinality({q[1] : q \in Rng(got)}) = Len(got)
   /\ \A q \in Rng(got) : q[1] \in DOMAIN want.w /\ REq(<<q[2], q[3]>>, <<want.w[q[1]], want.den>>)
   /\ Len(got) = Cardinality(DOMAIN want.w)
SmoothOperator_Fail(e, T, R) ==
   LET want == WantedRows(e, T, R)
   IN CASE Raised(e) -> {"SmoothOperatorRaised"}
        [] e.A.r # Len(want) \/ e.A.c # Count(T, 0) -> {"SmoothOperatorShape"}
        [] \E v \in Idx(want) : ~SameRow(e.A.rows[v], want[v]) -> {"SmoothOperatorRow"}
        [] OTHER -> {}
Smooth_Fail(e, T, R) ==
   LET want == WantedRows(e, T, R)
       at(r) == FoldSet(LAMBDA u, acc: VAdd(acc, VScale(r.w[u], e.coarse[u])), VScale(0, e.coarse[1]), DOMAIN r.w)
   IN CASE Raised(e) -> {"SmoothRaised"}
        [] Len(e.fine) # Len(want) -> {"SmoothVertexCount"}
        [] \E v \in Idx(want) : Len(e.fine[v][2]) # Len(e.coarse[1]) -> {"SmoothDimension"}
        [] \E v \in Idx(want) : VScale(want[v].den, e.fine[v][2]) # VScale(e.fine[v][1], at(want[v])) -> {"SmoothPosition"}
        [] OTHER -> {}
=============================================================================
