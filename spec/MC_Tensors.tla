------------------------------- MODULE MC_Tensors -------------------------------
(* A pair of sparse matrices grown entry by entry, in every order and with      *)
(* repetition.  The way the operations work on entries (concatenate, group,     *)
(* pair up equal indices) means the dense operation.  Emits the pairs.          *)
EXTENDS Tensors, Json, IOUtils
CONSTANTS MaxA, MaxB, NLabels, Label
VARIABLES A, B
Labels == 0..(NLabels - 1)
EntryValues == {2, -3}

Keys == {<<i, j>> : i \in Labels, j \in Labels}
Empty == [n |-> 2, k |-> << >>, d |-> << >>]
Append1(T, key, v) == [T EXCEPT !.k = Append(@, key), !.d = Append(@, v)]
Init == A = Empty /\ B = Empty
GrowA == Len(A.k) < MaxA /\ \E key \in Keys, v \in EntryValues : A' = Append1(A, key, v) /\ UNCHANGED B
GrowB == Len(B.k) < MaxB /\ \E key \in Keys, v \in EntryValues : B' = Append1(B, key, v) /\ UNCHANGED A
Next == GrowA \/ GrowB
Spec == Init /\ [][Next]_<<A, B>>

\* the algorithms: concatenation followed by grouping, pairing group by group
Cat(S, T) == [n |-> S.n, k |-> S.k \o T.k, d |-> S.d \o T.d]
Group(T) == LET K == SetToSeq(TKeys(T)) IN [n |-> T.n, k |-> K, d |-> [i \in Idx(K) |-> TAt(T, K[i])]]
Common(a, b) == SetToSeq(Rng(a) \cap Rng(b))
PairUp(a, b) == Concat([x \in Idx(Common(a, b)) |-> LET key == Common(a, b)[x]
                          P == SetToSeq({i \in Idx(a) : a[i] = key})
                          Q == SetToSeq({j \in Idx(b) : b[j] = key})
                      IN [q \in 1..(Len(P) * Len(Q)) |-> <<P[((q - 1) \div Len(Q)) + 1], Q[((q - 1) % Len(Q)) + 1]>>]])
LastOf(T) == [i \in Idx(T.k) |-> Last(T.k[i])]
HeadOf(T) == [i \in Idx(T.k) |-> Head(T.k[i])]
DotAlgo(S, T) == LET P == PairUp(LastOf(S), HeadOf(T))
                 IN Group([n |-> 2, k |-> [x \in Idx(P) |-> Left(S.k[P[x][1]]) \o Right(T.k[P[x][2]])], d |-> [x \in Idx(P) |-> S.d[P[x][1]] * T.d[P[x][2]]]])
Transposed(T) == [T EXCEPT !.k = [i \in Idx(T.k) |-> Rev(T.k[i])]]
Ev(h) == [op |-> "tensor", how |-> h, A |-> A, B |-> B]
AddMeans == TMean(Group(Cat(A, B))) = TensorMeaning(Ev("add")) /\ TUnique(Group(Cat(A, B)))
PairsMean == /\ Rng(PairUp(LastOf(A), HeadOf(B))) = MatchPairs(LastOf(A), HeadOf(B))
             /\ Distinct(PairUp(LastOf(A), HeadOf(B)))
DotMeans == TMean(DotAlgo(A, B)) = TensorMeaning(Ev("dot"))
DotTransposed == TMean(Transposed(DotAlgo(A, B))) = TMean(DotAlgo(Transposed(B), Transposed(A)))
MulMeans == (TUnique(A) /\ TUnique(B)) =>
               LET C == Cat(A, B)
                   K == SelectSeq(SetToSeq(TKeys(C)), LAMBDA key: Cardinality({i \in Idx(C.k) : C.k[i] = key}) = 2)
               IN [key \in Rng(K) |-> ProdSeq(SelectSeq([i \in Idx(C.k) |-> IF C.k[i] = key THEN C.d[i] ELSE 1], LAMBDA v: TRUE))] = TensorMeaning(Ev("mul"))
\* contraction distributes over sums, the dense law the representation has to keep
DotDistributes == LET L == DotAlgo(Group(Cat(A, A)), B) R == DotAlgo(A, B)
                  IN \A key \in TKeys(R) : TAt(L, key) = 2 * TAt(R, key)
Grown == UNION {[1..n -> Keys \X EntryValues] : n \in 0..MaxB}
AsT(s) == [n |-> 2, k |-> [i \in Idx(s) |-> s[i][1]], d |-> [i \in Idx(s) |-> s[i][2]]]
Dump == TLCGet("distinct") > 0 /\ ndJsonSerialize(IOEnv.GENDIR \o "/tensors-" \o Label \o ".ndjson", SetToSeq({AsT(s) : s \in Grown}))
=============================================================================
