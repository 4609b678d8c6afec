-------------------------------- MODULE MC_Moves --------------------------------
(* Programs of moves of the plane, run step by step on a triangle.  One move by *)
(* the product of their matrices gets to the same place; areas grow by the      *)
(* determinant, lines stay lines, a move undone by its inverse is no move.      *)
(* Emits the programs.                                                          *)
EXTENDS Moves, Json, IOUtils
CONSTANTS MaxMoves, Label
VARIABLES prog, here

Triangle == << <<1, <<0, 0>> >>, <<1, <<2, 1>> >>, <<1, <<1, 3>> >> >>
Menu == {<<"translate", <<1, -2>> >>, <<"translate", <<-3, 0>> >>, <<"scale", 2>>, <<"scale", -1>>,
         <<"linear", << <<0, 1>>, <<-1, 0>> >> >>, <<"linear", << <<1, 1>>, <<0, 1>> >> >>, <<"linear", << <<2, 0>>, <<0, -3>> >> >>,
         <<"affine", << <<1, 0, 0>>, <<2, 1, 0>>, <<-1, 1, 1>> >> >>, <<"affine", << <<1, 0, 1>>, <<0, 1, 1>>, <<0, 0, 7>> >> >>, <<"affine", << <<2, 0, 0>>, <<0, 2, 0>>, <<1, 0, 2>> >> >>}
Plain(y) == LET w == y[Len(y)] m == Len(y) - 1 IN <<Abs(w), [a \in 1..m |-> Sign(w) * y[a]]>>
Init == prog = << >> /\ here = Triangle
DoMove == /\ Len(prog) < MaxMoves
        /\ \E m \in Menu : LET M == HomOf(m, 2) ys == [i \in 1..3 |-> Moved(here[i], M)] IN
              /\ \A i \in 1..3 : ys[i][3] # 0
              /\ prog' = Append(prog, m)
              /\ here' = [i \in 1..3 |-> Plain(ys[i])]
Spec == Init /\ [][DoMove]_<<prog, here>>

Whole == HomOfAll(prog, 2)
StepsAreOneMove == prog # << >> => \A i \in 1..3 : AtImage(here[i], Moved(Triangle[i], Whole))
\* homogeneous determinant of three points: zero on a line; multiplicative
Hdet(ps) == Det([i \in 1..3 |-> Append(ps[i][2], ps[i][1])])
Flat == \A i \in Idx(prog) : HomOf(prog[i], 2)[1][3] = 0 /\ HomOf(prog[i], 2)[2][3] = 0
Scalings == prog # << >> =>
   Det([i \in 1..3 |-> Moved(Triangle[i], Whole)]) = Hdet(Triangle) * Det(Whole)
StaysATriangle == Hdet(here) # 0
\* without projections the area grows by the determinant of the linear part
AreaByDeterminant == (prog # << >> /\ Flat) =>
   LET w == Whole[3][3] d == Whole[1][1] * Whole[2][2] - Whole[1][2] * Whole[2][1]
       D == here[1][1] * here[2][1] * here[3][1]
   IN Hdet(here) * w * w = Hdet(Triangle) * d * D
Dump == TLCGet("distinct") > 0 /\ ndJsonSerialize(IOEnv.GENDIR \o "/moves-" \o Label \o ".ndjson", SetToSeq({[prog |-> p] : p \in UNION {[1..k -> Menu] : k \in 1..MaxMoves}}))
=============================================================================
