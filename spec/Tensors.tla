------------------------------- MODULE Tensors -------------------------------
(* Sparse arrays as lists of (index tuple, value) entries, and what they mean: *)
(* a function from index tuples to values, repeated entries adding up.         *)
(* T = [k |-> seq of index tuples, d |-> seq of integers]                      *)
(* Also the helpers around sparse matrices and arrays of indices.              *)
EXTENDS Multigrid

TKeys(T) == Rng(T.k)
TAt(T, key) == SumOver({i \in Idx(T.k) : T.k[i] = key}, LAMBDA i: T.d[i])
TMean(T) == [key \in TKeys(T) |-> TAt(T, key)]
TUnique(T) == Distinct(T.k)
Rev(s) == [i \in Idx(s) |-> s[Len(s) + 1 - i]]
\* the last axis of A contracted with the first of B; a vector has one axis
Left(key) == SubSeq(key, 1, Len(key) - 1)
Right(key) == Tail(key)
\* all the pairs of positions with equal items
MatchPairs(a, b) == {p \in Idx(a) \X Idx(b) : a[p[1]] = b[p[2]]}
Contract(A, B) ==
   LET P == MatchPairs([i \in Idx(A.k) |-> Last(A.k[i])], [j \in Idx(B.k) |-> Head(B.k[j])])
       K == {Left(A.k[p[1]]) \o Right(B.k[p[2]]) : p \in P}
   IN [key \in K |-> SumOver({p \in P : Left(A.k[p[1]]) \o Right(B.k[p[2]]) = key}, LAMBDA p: A.d[p[1]] * B.d[p[2]])]

\* the meaning of each operation, as a function
TensorMeaning(e) ==
   CASE e.how = "add"   -> [key \in TKeys(e.A) \cup TKeys(e.B) |-> TAt(e.A, key) + TAt(e.B, key)]
     [] e.how = "mul"   -> [key \in TKeys(e.A) \cap TKeys(e.B) |-> TAt(e.A, key) * TAt(e.B, key)]
     [] e.how = "scale" -> [key \in TKeys(e.A) |-> e.s * TAt(e.A, key)]
     [] e.how = "T"     -> [key \in {Rev(x) : x \in TKeys(e.A)} |-> TAt(e.A, Rev(key))]
     [] e.how = "keep"  -> TMean(e.A)
     [] e.how = "concat" -> [key \in TKeys(e.A) \cup TKeys(e.B) |-> TAt(e.A, key) + TAt(e.B, key)]
     [] e.how = "above" -> LET S == {i \in Idx(e.A.k) : e.A.d[i] > e.s} IN [key \in {e.A.k[i] : i \in S} |-> SumOver({i \in S : e.A.k[i] = key}, LAMBDA i: e.A.d[i])]
     [] e.how = "dot"   -> Contract(e.A, e.B)
\* how many entries are stored
TensorEntries(e) ==
   CASE e.how \in {"add", "mul", "dot"} -> Cardinality(DOMAIN TensorMeaning(e))
     [] e.how = "concat" -> Len(e.A.k) + Len(e.B.k)
     [] e.how = "above" -> Cardinality({i \in Idx(e.A.k) : e.A.d[i] > e.s})
     [] OTHER -> Len(e.A.k)
TensorAxes(e) ==
   CASE e.how = "dot" -> e.A.n + e.B.n - 2 [] OTHER -> e.A.n
Tensor_Fail(e) ==
   CASE Raised(e) -> {"SparseOperationRaised"}
     [] e.out.n # TensorAxes(e) \/ (\E i \in Idx(e.out.k) : Len(e.out.k[i]) # e.out.n) -> {"SparseAxes"}
     [] Len(e.out.k) # Len(e.out.d) \/ e.nnz # Len(e.out.k) \/ e.nnz # TensorEntries(e) -> {"SparseEntryCount"}
     [] TMean(e.out) # TensorMeaning(e) -> {"SparseMeansDenseResult"}
     [] OTHER -> {}
\* to dense: sorted labels of every axis and the table; entries not stored are empty
RECURSIVE At(_, _)
At(tab, idx) == IF idx = << >> THEN tab ELSE At(tab[Head(idx)], Tail(idx))
RECURSIVE Positions(_)
Positions(lens) == IF lens = << >> THEN {<< >>} ELSE {<<i>> \o r : i \in 1..Head(lens), r \in Positions(Tail(lens))}
Table_Fail(e) ==
   CASE Raised(e) -> {"SparseOperationRaised"}
     [] \E a \in Idx(e.axes) : e.axes[a] # SetToSortSeq({key[a] : key \in TKeys(e.A)}, LAMBDA x, y: x < y) -> {"TableLabels"}
     [] \E p \in Positions([a \in Idx(e.axes) |-> Len(e.axes[a])]) :
           LET key == [a \in Idx(e.axes) |-> e.axes[a][p[a]]]
           IN IF key \in TKeys(e.A) THEN At(e.table, p) # <<TAt(e.A, key)>> ELSE At(e.table, p) \notin {<< >>, <<0>>} -> {"TableMeansArray"}
     [] OTHER -> {}
FromTable_Fail(e) ==
   CASE Raised(e) -> {"SparseOperationRaised"}
     [] Len(e.out.k) # e.size \/ TKeys(e.out) # {[a \in Idx(p) |-> p[a] - 1] : p \in Positions(e.shape)} -> {"TableLabels"}
     [] \E p \in Positions(e.shape) : TAt(e.out, [a \in Idx(p) |-> p[a] - 1]) # At(e.table, p) -> {"TableMeansArray"}
     [] OTHER -> {}
MatchPairs_Fail(e) ==
   CASE Raised(e) -> {"SparseOperationRaised"}
     [] Len(e.i) # Len(e.j) \/ Cardinality({<<e.i[q], e.j[q]>> : q \in Idx(e.i)}) # Len(e.i) -> {"PairsListedOnce"}
     [] {<<e.i[q], e.j[q]>> : q \in Idx(e.i)} # MatchPairs(e.a, e.b) -> {"AllMatchingPairs"}
     [] OTHER -> {}

(* ---- sparse matrices: sequences of rows <<<<col, value>>, ...>> ---- *)
RowAbs(A, i) == SumOver(Idx(A[i]), LAMBDA q: Abs(A[i][q][2]))
ColAbs(A, j) == SumOver(Idx(A), LAMBDA i: SumOver({q \in Idx(A[i]) : A[i][q][1] = j}, LAMBDA q: Abs(A[i][q][2])))
SameEntries(R, A, f(_, _, _)) ==          \* row by row, <<col, num, den>> stands for f(i, j, value)
   /\ Len(R) = Len(A)
   /\ \A i \in Idx(A) : {<<x[1], RNorm(x[2], x[3])>> : x \in Rng(R[i])} = {<<x[1], f(i, x[1], x[2])>> : x \in Rng(A[i])}
SparseHelper_Fail(e) ==
   CASE Raised(e) -> {"SparseOperationRaised"}
     [] <<e.out.r, e.out.c>> # e.shape -> {"HelperShape"}
     [] e.how = "normalize" /\ ~SameEntries(e.out.rows, e.A, LAMBDA i, j, v: RNorm(v, IF e.axis = 1 THEN RowAbs(e.A, i) ELSE ColAbs(e.A, j))) -> {"UnitAbsoluteSums"}
     [] e.how = "ones" /\ ~SameEntries(e.out.rows, e.A, LAMBDA i, j, v: ROne) -> {"PatternOfOnes"}
     [] e.how = "invert" /\ ~SameEntries(e.out.rows, e.A, LAMBDA i, j, v: RNorm(1, v)) -> {"InvertedDiagonal"}
     [] e.how = "zeros" /\ (\E i \in Idx(e.out.rows) : e.out.rows[i] # << >>) -> {"NoEntries"}
     [] e.how = "select" /\ LET S == SetToSortSeq({i \in Idx(e.mask) : e.mask[i]}, LAMBDA x, y: x < y)
                            IN ~(Len(e.out.rows) = Len(S) /\ \A i \in Idx(S) : e.out.rows[i] = <<<<S[i], 1, 1>>>>) -> {"SelectionRows"}
     [] e.how = "transfer" /\ (\E i \in 1..e.shape[1] : \E j \in 1..e.shape[2] :
            LET n == Cardinality({q \in Idx(e.i) : e.i[q] = i /\ e.j[q] = j})
            IN {x \in Rng(e.out.rows[i]) : x[1] = j} # (IF n = 0 THEN {} ELSE {<<j, n, 1>>})) -> {"TransferEntries"}
     [] e.how = "incidence" /\ (\E j \in Idx(e.els) : \E i \in 1..e.shape[1] :
            {x[2] : x \in {y \in Rng(e.out.rows[i]) : y[1] = j}} # {e.sg[j][w] : w \in {z \in Idx(e.els[j]) : e.els[j][z] = i}}) -> {"IncidenceEntries"}
     [] OTHER -> {}

(* ---- arrays of indices ---- *)
Elements_Fail(e) ==          \* the rows of the pattern of a sparse matrix, which all have the same number of entries
   CASE Raised(e) -> {"SparseOperationRaised"}
     [] Len(e.out) # Len(e.A) \/ (\E i \in Idx(e.A) : ~(Distinct(e.out[i]) /\ Rng(e.out[i]) = {x[1] : x \in Rng(e.A[i])})) -> {"RowsAsElements"}
     [] OTHER -> {}
Lookup_Fail(e) ==            \* this[out[i]] has the corners of that[i]
   CASE Raised(e) -> {"SparseOperationRaised"}
     [] Len(e.out) # Len(e.that) \/ (\E i \in Idx(e.that) : ~(e.out[i] \in Idx(e.this) /\ Rng(e.this[e.out[i]]) = Rng(e.that[i]))) -> {"SameCorners"}
     [] OTHER -> {}
SortRows_Fail(e) ==          \* rows (or columns, presented transposed) sorted, with where each item came from
   CASE Raised(e) -> {"SparseOperationRaised"}
     [] \E i \in Idx(e.arr) : ~( /\ Len(e.out[i]) = Len(e.arr[i]) /\ Rng(e.perm[i]) = Idx(e.arr[i])
                                /\ (\A w \in 1..(Len(e.out[i]) - 1) : e.out[i][w] <= e.out[i][w + 1])
                                /\ \A q \in Idx(e.out[i]) : e.out[i][q] = e.arr[i][e.perm[i][q]]) -> {"SortedWithOrigin"}
     [] OTHER -> {}
RelPerm_Fail(e) ==           \* r o b = a, row by row
   CASE Raised(e) -> {"SparseOperationRaised"}
     [] \E i \in Idx(e.a) : ~(\A q \in Idx(e.a[i]) : e.out[i][e.b[i][q]] = e.a[i][q]) -> {"RelativePermutation"}
     [] OTHER -> {}
GridIndices_Fail(e) ==       \* out[a] at position p is p[a]
   CASE Raised(e) -> {"SparseOperationRaised"}
     [] Len(e.out) # Len(e.shape) \/ (\E a \in Idx(e.shape) : \E p \in Positions(e.shape) : At(e.out[a], p) # p[a] - 1) -> {"GridIndices"}
     [] OTHER -> {}
Iter_Fail(e) ==
   CASE Raised(e) -> {"SparseOperationRaised"}
     [] e.how = "pairs" /\ e.out # [i \in 1..(Max2(Len(e.x), 1) - 1) |-> <<e.x[i], e.x[i + 1]>>] -> {"ConsecutivePairs"}
     [] e.how = "sums" /\ e.out # [i \in Idx(e.x) |-> SumSeq(SubSeq(e.x, 1, i))] -> {"RunningTotals"}
     [] e.how = "products" /\ e.out # [i \in Idx(e.x) |-> ProdSeq(SubSeq(e.x, 1, i))] -> {"RunningTotals"}
     [] OTHER -> {}
Tensors_Fail(e) ==
   CASE e.op = "tensor" -> Tensor_Fail(e)
     [] e.op = "totable" -> Table_Fail(e)
     [] e.op = "fromtable" -> FromTable_Fail(e)
     [] e.op = "matchpairs" -> MatchPairs_Fail(e)
     [] e.op = "sparsehelper" -> SparseHelper_Fail(e)
     [] e.op = "aselements" -> Elements_Fail(e)
     [] e.op = "lookup" -> Lookup_Fail(e)
     [] e.op = "sortrows" -> SortRows_Fail(e)
     [] e.op = "relperm" -> RelPerm_Fail(e)
     [] e.op = "gridindices" -> GridIndices_Fail(e)
     [] e.op = "iter" -> Iter_Fail(e)
TensorOps == {"tensor", "totable", "fromtable", "matchpairs", "sparsehelper", "aselements", "lookup", "sortrows", "relperm", "gridindices", "iter"}
=============================================================================
