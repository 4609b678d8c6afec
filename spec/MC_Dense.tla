-------------------------------- MODULE MC_Dense --------------------------------
(* Small integer matrices, built entry by entry.  The conditions by which Dense *)
(* judges pseudo inverses, roots and closest rotations are met by exactly the   *)
(* matrices of the textbook formulas.  Emits the matrices.                      *)
EXTENDS Dense, Json, IOUtils
CONSTANTS Rows, Cols, Entries, Label
VARIABLES m

Init == m = << >>
Fill == Len(m) < Rows * Cols /\ \E x \in Entries : m' = Append(m, x - 1)
Spec == Init /\ [][Fill]_m
Ready == Len(m) = Rows * Cols
A == [i \in 1..Rows |-> [j \in 1..Cols |-> m[(i - 1) * Cols + j]]]
Size2 == SumOver(1..(Rows * Cols), LAMBDA i: m[i] * m[i])
\* 2 x 2: adjugate over determinant, or transpose over squared size
Adj == << <<A[2][2], 0 - A[1][2]>>, <<0 - A[2][1], A[1][1]>> >>
RankOne == \A i, k \in 1..Rows : \A j, l \in 1..Cols : A[i][j] * A[k][l] = A[i][l] * A[k][j]
PseudoInverse == (Ready /\ Size2 > 0) =>
   /\ RankOne => PenroseOK(A, Tr(A), Size2)
   /\ (Rows = 2 /\ Cols = 2 /\ ~RankOne) => PenroseOK(A, MScale(Sign(Det(A)), Adj), Abs(Det(A)))
\* nothing else will do: another multiple of the transpose fails
OnlyOne == (Ready /\ Size2 > 0 /\ RankOne) => \A d \in {1, 2, 3, 5} : d # Size2 => ~PenroseOK(A, Tr(A), d)
\* rational rotations (over 25) and the judgment of the closest
Turns == {<<25, 0>>, <<0, 25>>, <<-25, 0>>, <<0, -25>>, <<15, 20>>, <<20, 15>>, <<-15, 20>>, <<15, -20>>, <<7, 24>>, <<24, -7>>, <<-7, -24>>, <<-24, 7>>}
Rot(t) == << <<t[1], 0 - t[2]>>, <<t[2], t[1]>> >>
Closeness(Q) == TraceOf(MatTimes(Tr(Q), A))
ClosestHasNoRival == (Ready /\ Rows = 2 /\ Cols = 2) =>
   \A t \in Turns : ClosestRotation(A, Rot(t)) => \A s \in Turns \ {t} : Closeness(Rot(s)) < Closeness(Rot(t))
\* closest among the reflections as well, as far as A is not a mirror image itself
NoMirrorCloser == (Ready /\ Rows = 2 /\ Cols = 2) =>
   \A t \in Turns : ClosestOrthonormal(A, Rot(t)) => \A s \in Turns : Closeness(MatTimes(<< <<1, 0>>, <<0, -1>> >>, Rot(s))) < Closeness(Rot(t))
Adjugates == (Ready /\ Rows = 3 /\ Cols = 3) =>
   MatTimes(A, Tr(<<Cross3(A[2], A[3]), Cross3(A[3], A[1]), Cross3(A[1], A[2])>>)) = MScale(Det(A), Ident(3))
Dump == TLCGet("distinct") > 0 /\ ndJsonSerialize(IOEnv.GENDIR \o "/matrices-" \o Label \o ".ndjson",
          SetToSeq({[a |-> [i \in 1..Rows |-> [j \in 1..Cols |-> x[(i - 1) * Cols + j] - 1]]] : x \in [1..(Rows * Cols) -> Entries]}))
=============================================================================
