------------------------------- MODULE MC_Sphere -------------------------------
(* Two spherical triangles on a common arc are built corner by corner from the *)
(* integer points of norm R.  Theorems: the judgment by signed squared chords  *)
(* is convexity of the pair; of a convex pair the higher pole is that of the   *)
(* triangle holding the direction; areas compose over the other diagonal and   *)
(* over the kites around a centre.  Emits the pairs.                           *)
EXTENDS Sphere, Json, IOUtils
CONSTANTS R, Label
VARIABLES pick

Points == {p \in [1..3 -> (0 - R)..R] : p[1] * p[1] + p[2] * p[2] + p[3] * p[3] = R * R}
\* one start per symmetry class
First == {p \in Points : p[1] >= p[2] /\ p[2] >= p[3] /\ p[3] >= 0}
Init == pick = << >>
MayFollow(s, p) == CASE Len(s) = 0 -> p \in First
                [] Len(s) = 1 -> Dot(s[1], p) > 0 - R * R /\ p # s[1]
                [] Len(s) = 2 -> SDet(<<s[1], s[2], p>>) > 0
                [] Len(s) = 3 -> SDet(<<s[1], s[2], p>>) < 0
Next == Len(pick) < 4 /\ \E p \in Points : MayFollow(pick, p) /\ pick' = Append(pick, p)
Spec == Init /\ [][Next]_pick
Ready == Len(pick) = 4
a == pick[1]
b == pick[2]
c == pick[3]
d == pick[4]
\* outward normals of the planes through the corners; big triangles (holding the centre on the wrong side) are left out
Up == Cross3(VSub(b, a), VSub(c, a))
Down == Cross3(VSub(d, a), VSub(b, a))
Small == Dot(Up, a) > 0 /\ Dot(Down, a) > 0
Margin == Dot(Up, VSub(a, d))      \* positive where convex
Cosine(n, m) == LET x == Dot(n, m) IN <<x * x, Norm2(n) * Norm2(m)>>     \* squared; of acute angles
Side(p, q, r, n) == Sign(SDet(<<p, q, n>>)) * Sign(SDet(<<p, q, r>>))      \* is n on the side of r
Mid == VAdd(a, b)
Greater(x, y) == Sign(RSub(RNorm(x[1], x[2]), RNorm(y[1], y[2]))[1])
SUp == Side(a, b, c, Up)
SDown == Side(a, b, d, Down)
\* sign of SUp * chord(Up, Mid)^2 + SDown * chord(Down, Mid)^2
Judgment == IF SUp >= 0 /\ SDown >= 0 THEN Sign(SUp + SDown)
            ELSE IF SUp <= 0 /\ SDown <= 0 THEN 0 - 1
            ELSE IF SUp > 0 THEN Greater(Cosine(Down, Mid), Cosine(Up, Mid)) ELSE Greater(Cosine(Up, Mid), Cosine(Down, Mid))
JudgmentIsConvexity == Ready /\ Small => Judgment = Sign(Margin)
\* poles n / (n . a), compared in direction q
Pole(n, q) == RNorm(Dot(n, q), Dot(n, a))
Tests(x, y, z) == {VAdd(VAdd(VScale(i, x), VScale(j, y)), VScale(k, z)) : <<i, j, k>> \in {t \in ((0..2) \X (0..2) \X (1..2)) : t[1] + t[2] > 0}}
HigherPoleHolds == Ready /\ Small /\ Margin > 0 =>
   /\ \A q \in Tests(a, b, c) : RLt(Pole(Down, q), Pole(Up, q))
   /\ \A q \in Tests(a, b, d) : RLt(Pole(Up, q), Pole(Down, q))
\* the four corners in convex position on the sphere
Crossing == Cross3(Cross3(a, b), Cross3(c, d))
Quad == SDet(<<c, d, a>>) > 0 /\ SDet(<<c, d, b>>) < 0 /\ Sign(Dot(Crossing, VAdd(a, b))) * Sign(Dot(Crossing, VAdd(c, d))) = 1
T2(x, y, z) == LET h == HalfArea(x, y, z, R) IN Turned(h, h)
AreaOverOtherDiagonal == Ready /\ Quad => SameAngle(Turned(T2(a, b, c), T2(a, b, d)), Turned(T2(c, d, a), T2(c, d, b)), 12)
Acute(p) == \A i \in 1..3 : CornerDot(p, i) > 0
KitesTile == Ready /\ Dot(Up, a) > 0 /\ Acute(<<a, b, c>>) =>
   LET p == <<a, b, c>> IN SameAngle(TurnedAll([i \in 1..3 |-> Kite(p, i, R)]), T2(a, b, c), 12)
Reached == [s \in {"s"} |-> {p \in (First \X Points \X Points \X Points) : \A k \in 1..4 : MayFollow(SubSeq(p, 1, k - 1), p[k])}]
Dump == TLCGet("distinct") > 0 /\ ndJsonSerialize(IOEnv.GENDIR \o "/caps-" \o Label \o ".ndjson",
          SetToSeq({[pos |-> s] : s \in Reached["s"]}))
=============================================================================
