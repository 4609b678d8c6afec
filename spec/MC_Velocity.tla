------------------------------ MODULE MC_Velocity ------------------------------
(* Two triangles on a common edge are built corner by corner, then what passes  *)
(* each edge is chosen.  The velocity that comes closest to it by the normal    *)
(* equations (Cramer's rule) is the one the judgment of Velocity accepts; where *)
(* nothing is created it fits exactly; a uniform flow is its own velocity.      *)
(* Emits the pairs with their flows.                                            *)
EXTENDS Velocity, Json, IOUtils
CONSTANTS L, H, Most, Label
VARIABLES up, down, ks

Ups == (0..L) \X (1..H)
Flows == (0 - Most)..Most
Init == up = << >> /\ down = << >> /\ ks = << >>
PlaceUp == up = << >> /\ up' \in Ups /\ UNCHANGED <<down, ks>>
PlaceDown == up # << >> /\ down = << >> /\ \E q \in Ups : down' = <<q[1], -q[2]>> /\ UNCHANGED <<up, ks>>
Flow == down # << >> /\ Len(ks) < 5 /\ \E x \in Flows : ks' = Append(ks, x) /\ UNCHANGED <<up, down>>
Next == PlaceUp \/ PlaceDown \/ Flow
Spec == Init /\ [][Next]_<<up, down, ks>>
Ready == Len(ks) = 5

P == <<(<<0, 0>>), (<<L, 0>>), up, down>>
\* edges, common one first; what passes it goes into the upper triangle and out of the lower one
Edges == << <<1, 2>>, <<2, 3>>, <<3, 1>>, <<1, 4>>, <<4, 2>> >>
Upper == [rows |-> {1, 2, 3}, apex |-> <<3, 1, 2, 0, 0>>, sign |-> <<1, 1, 1, 0, 0>>]
Lower == [rows |-> {1, 4, 5}, apex |-> <<4, 0, 0, 2, 1>>, sign |-> <<-1, 0, 0, 1, 1>>]
Normal(t, r) == FacetNormal(<<P[Edges[r][1]], P[Edges[r][2]]>>, P[t.apex[r]])
In(t, r) == t.sign[r] * ks[r]
Net(t) == SumOver(t.rows, LAMBDA r: In(t, r))
Gram(t, a, b) == SumOver(t.rows, LAMBDA r: Normal(t, r)[a] * Normal(t, r)[b])
Rhs(t, a) == SumOver(t.rows, LAMBDA r: Normal(t, r)[a] * In(t, r))
Den(t) == Gram(t, 1, 1) * Gram(t, 2, 2) - Gram(t, 1, 2) * Gram(t, 1, 2)
Num(t) == <<Rhs(t, 1) * Gram(t, 2, 2) - Rhs(t, 2) * Gram(t, 1, 2), Rhs(t, 2) * Gram(t, 1, 1) - Rhs(t, 1) * Gram(t, 1, 2)>>
Closed == Ready => \A t \in {Upper, Lower} : \A a \in 1..2 : SumOver(t.rows, LAMBDA r: Normal(t, r)[a]) = 0
Solvable == Ready => \A t \in {Upper, Lower} : Den(t) > 0
ResidualIsShared == Ready => \A t \in {Upper, Lower} : \A r \in t.rows :
   3 * Dot(Normal(t, r), Num(t)) = Den(t) * (3 * In(t, r) - Net(t))
ExactWhereNothingIsCreated == Ready => \A t \in {Upper, Lower} : Net(t) = 0 =>
   \A r \in t.rows : Dot(Normal(t, r), Num(t)) = Den(t) * In(t, r)
\* a uniform flow, as what passes the edges
Uniform == Ready => \A u \in (0..1) \X (-1..1) : \A t \in {Upper, Lower} : \A a \in 1..2 :
   SumOver(1..2, LAMBDA b: Gram(t, a, b) * u[b]) = SumOver(t.rows, LAMBDA r: Normal(t, r)[a] * Dot(u, Normal(t, r)))
OppositeSides == Ready => Normal(Upper, 1) = VScale(-1, Normal(Lower, 1))
Dump == TLCGet("distinct") > 0 /\ ndJsonSerialize(IOEnv.GENDIR \o "/flows-" \o Label \o ".ndjson",
          SetToSeq({[cells |-> << <<1, 2, 3>>, <<2, 1, 4>> >>, pos |-> << <<0, 0>>, <<L, 0>>, u, <<d[1], -d[2]>> >>, edges |-> Edges, k |-> x] :
                    u \in Ups, d \in Ups, x \in [1..5 -> Flows]}))
=============================================================================
