------------------------------ MODULE MC_Cells ------------------------------
(* Exhaustive model: a user adds cells one by one (every vertex set, and a    *)
(* choice of vertex orders).  Checks that the specification's complexes,      *)
(* boundaries, duals and judgements have the claimed properties on every      *)
(* mesh within the bounds, and emits each mesh so that the real library is    *)
(* run on it.                                                                 *)
EXTENDS Theory, Json, IOUtils

CONSTANTS Kind, N, V, MaxCells, Orders, Label
VARIABLES cells

Code(S) == SumOver(S, LAMBDA v: Pow(2, v))
ReverseFirstTwo(t) == [i \in Idx(t) |-> IF i = 1 THEN t[2] ELSE IF i = 2 THEN t[1] ELSE t[i]]
SimplexOrders(S) ==
   LET t == SortedTuple(S)
   IN CASE Orders = "all"  -> {p \in PermutationsOf(S) : TRUE}
        [] Orders = "both" -> {t, ReverseFirstTwo(t)}
        [] OTHER -> {t}
\* quads: three cyclic arrangements of four vertices, and their mirror images
QuadOrders(S) ==
   LET t == SortedTuple(S)
       arr == {<<t[1], t[2], t[3], t[4]>>, <<t[1], t[2], t[4], t[3]>>, <<t[1], t[3], t[4], t[2]>>}
       mir(q) == <<q[3], q[4], q[1], q[2]>>
   IN CASE Orders = "all" -> {p \in PermutationsOf(S) : TRUE}
        [] Orders = "both" -> arr \cup {mir(q) : q \in arr}
        [] OTHER -> arr
Candidates == IF Kind = "simplicial" THEN {p \in SUBSET (1..V) : Cardinality(p) = N + 1}
              ELSE {p \in SUBSET (1..V) : Cardinality(p) = Pow(2, N)}
OrdersOf(S) == IF Kind = "simplicial" \/ N = 1 THEN SimplexOrders(S) ELSE QuadOrders(S)

Init == cells = << >>
Add == \E S \in Candidates :
          /\ Len(cells) < MaxCells
          /\ cells # << >> => Code(S) > Code(Rng(cells[Len(cells)]))
          /\ \E t \in OrdersOf(S) :
                /\ (Orders = "all" /\ cells = << >>) => t = SortedTuple(S)     \* first one in canonical order
                /\ cells' = Append(cells, t)
Next == Add
Spec == Init /\ [][Next]_cells

Compact == LET vs == SortedTuple(UNION {Rng(c) : c \in Rng(cells)})
               pos(v) == CHOOSE i \in Idx(vs) : vs[i] = v
           IN [i \in Idx(cells) |-> [j \in Idx(cells[i]) |-> pos(cells[i][j])]]
\* faces identified by vertex sets must not clash inside a single cube or between quads' diagonals
Usable(c) == Kind = "simplicial" \/ \A i, j \in Idx(c) : i # j => Rng(c[i]) # Rng(c[j])

Emit(rec) == TLCSet(7, Append(TLCGet(7), rec))
Laws ==
   LET c == Compact IN
   (c # << >> /\ Usable(c)) =>
   LET T == Build(Kind, N, c)
       two == AtMostTwo(T)
       ok == /\ (ComplexFailures(T) = {} \/ (PrintT(<<ComplexFailures(T), T>>) /\ FALSE))
             /\ two => (Orientable(T) <=> BruteOrientable(T))
             /\ Oriented(T) /\ two =>
                  LET M == BuildDual(T) IN
                     /\ \A k \in 1..(N - 1) : ProdZero(M[k], M[k + 1])
                     /\ (N = 1 \/ ManifoldBoundary(T, OnceRows(T))) => \A j \in 1..M[1].c :
                          Len(M[1].cols[j]) = 2 /\ M[1].cols[j][1][2] + M[1].cols[j][2][2] = 0
       id == Label \o ToString(Len(TLCGet(7)) + 1)
   IN ok /\ Emit([id |-> id, kind |-> Kind, n |-> N, cells |-> c, oriented |-> Oriented(T) /\ two])

ASSUME TLCSet(7, << >>)
Dump == ndJsonSerialize(IOEnv.GENDIR \o "/cells-" \o Label \o ".ndjson", TLCGet(7))
=============================================================================
