------------------------------ MODULE MC_Weighted ------------------------------
(* Two triangles on a common edge are built corner by corner, then given       *)
(* weights.  Their power centres by Cramer's rule: what the judgments of       *)
(* Weighted say about the signed squared depths agrees with the signed length  *)
(* of the dual edge and with the empty circle test.  Emits the pairs.          *)
EXTENDS Weighted, Json, IOUtils
CONSTANTS L, H, LeastWeight, MostWeight, Label
VARIABLES up, down, ws

Ups == (0..L) \X (1..H)
Init == up = << >> /\ down = << >> /\ ws = << >>
PlaceUp == up = << >> /\ up' \in Ups /\ UNCHANGED <<down, ws>>
PlaceDown == up # << >> /\ down = << >> /\ \E q \in Ups : down' = <<q[1], -q[2]>> /\ UNCHANGED <<up, ws>>
Weigh == down # << >> /\ Len(ws) < 4 /\ \E x \in (0 - LeastWeight)..MostWeight : ws' = Append(ws, x) /\ UNCHANGED <<up, down>>
Next == PlaceUp \/ PlaceDown \/ Weigh
Spec == Init /\ [][Next]_<<up, down, ws>>
Ready == Len(ws) = 4

P == <<(<<0, 0>>), (<<L, 0>>), up, down>>
\* centre of the triangle with the given corners
Centre(t) == LET e == VSub(P[t[2]], P[t[1]]) f == VSub(P[t[3]], P[t[1]])
                 r == Dot(e, e) - ws[t[2]] + ws[t[1]]
                 s == Dot(f, f) - ws[t[3]] + ws[t[1]]
             IN <<2 * Turn(e, f), VAdd(<<r * f[2] - s * e[2], s * e[1] - r * f[1]>>, VScale(2 * Turn(e, f), P[t[1]]))>>
Top == <<1, 2, 3>>
Bottom == <<2, 1, 4>>
PowerAt(x, t) == PowerOK(x, [i \in 1..3 |-> P[t[i]]], [i \in 1..3 |-> ws[t[i]]])
\* barycentric coordinate of the corner opposite to the common edge: heights over it
BaryTop == RNorm(Centre(Top)[2][2], Centre(Top)[1] * up[2])
BaryBottom == RNorm(Centre(Bottom)[2][2], Centre(Bottom)[1] * down[2])
\* signed squares, as the judgment adds them up
MidEdge == <<2 * L, (<<L * L - ws[2] + ws[1], 0>>)>>
Signed(b, x) == RMul(<<Sign(b[1]), 1>>, RDist2(x, MidEdge))
Margin == RAdd(Signed(BaryTop, Centre(Top)), Signed(BaryBottom, Centre(Bottom)))
DualLength == RSub(RNorm(Centre(Top)[2][2], Centre(Top)[1]), RNorm(Centre(Bottom)[2][2], Centre(Bottom)[1]))
Power(x, v) == RSub(RDist2(x, <<1, P[v]>>), RInt(ws[v]))
EqualPowers == Ready => PowerAt(Centre(Top), Top) /\ PowerAt(Centre(Bottom), Bottom)
MarginIsDualLength == Ready => Sign(Margin[1]) = Sign(DualLength[1])
EmptyCircle == Ready => Sign(RSub(Power(Centre(Top), 4), Power(Centre(Top), 1))[1]) = Sign(DualLength[1])
WellCentredIsDelaunay == Ready => (BaryTop[1] > 0 /\ BaryBottom[1] > 0 => Margin[1] > 0)
Dump == TLCGet("distinct") > 0 /\ ndJsonSerialize(IOEnv.GENDIR \o "/pairs-" \o Label \o ".ndjson",
          SetToSeq({[cells |-> << <<1, 2, 3>>, <<2, 1, 4>> >>, pos |-> << <<0, 0>>, <<L, 0>>, u, <<d[1], -d[2]>> >>, w |-> x] :
                    u \in Ups, d \in Ups, x \in {y \in [1..4 -> (0 - LeastWeight)..MostWeight] : y[1] = 0}}))
=============================================================================
