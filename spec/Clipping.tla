------------------------------- MODULE Clipping -------------------------------
(* Cutting a triangle mesh along a plane, extruding it into a solid, and       *)
(* storing it as a triangle soup.  Heights above the plane are integers; a     *)
(* height <= 0 is on the kept side.  New points lie where edges cross the      *)
(* plane: on edge (a, b), at the fraction h[a] / (h[a] - h[b]) from a to b.    *)
EXTENDS Synthetic

Heights(pos, sup, dir) == [v \in Idx(pos) |-> Dot(VSub(pos[v], sup), dir)]
Crossed(h, a, b) == (h[a] > 0) # (h[b] > 0)
Frac(h, a, b) == RNorm(h[a], h[a] - h[b])
\* the part of a triangle on the kept side, as a fraction of it
KeptFraction(h, c) ==
   LET up == {i \in Idx(c) : h[c[i]] > 0}
       corner(i) == LET o == SetToSeq(Idx(c) \ {i}) IN RMul(Frac(h, c[i], c[o[1]]), Frac(h, c[i], c[o[2]]))
   IN CASE up = {} -> ROne
        [] up = Idx(c) -> RZero
        [] Cardinality(up) = 1 -> RSub(ROne, corner(CHOOSE i \in up : TRUE))
        [] OTHER -> corner(CHOOSE i \in Idx(c) : i \notin up)
RDet3(M) == LET m(i, j, k) == RMul(M[1][i], RMul(M[2][j], M[3][k]))
            IN RSub(RAdd(RAdd(m(1, 2, 3), m(2, 3, 1)), m(3, 1, 2)), RAdd(RAdd(m(3, 2, 1), m(2, 1, 3)), m(1, 3, 2)))
\* Points of a cut mesh: <<v>> an old vertex, <<a, b>> the crossing of an edge.
\* Barycentric coordinates of a point in a triangle, << >> if it does not belong to it.
PointIn(h, x, c) ==
   IF ~(Rng(x) \subseteq Rng(c)) THEN << >>
   ELSE [i \in Idx(c) |-> IF Len(x) = 1 THEN (IF c[i] = x[1] THEN ROne ELSE RZero)
                          ELSE CASE c[i] = x[1] -> RSub(ROne, Frac(h, x[1], x[2])) [] c[i] = x[2] -> Frac(h, x[1], x[2]) [] OTHER -> RZero]
\* share of triangle c taken by the piece with corners xs
Share(h, xs, c) == RDet3([i \in Idx(xs) |-> PointIn(h, xs[i], c)])
HeightOf(h, x) == IF Len(x) = 1 THEN h[x[1]] ELSE 0
OneSide(h, xs) == (\A i \in Idx(xs) : HeightOf(h, xs[i]) <= 0) \/ (\A i \in Idx(xs) : HeightOf(h, xs[i]) >= 0)

\* possible readings of a recorded position <<D, ints>>
Readings(T, pos, h, q) ==
   {<<u>> : u \in {u \in Idx(pos) : VScale(q[1], pos[u]) = q[2]}}
   \cup {x \in {<<T.E[2][i][1], T.E[2][i][2]>> : i \in 1..Count(T, 1)} :
           /\ Crossed(h, x[1], x[2])
           /\ LET d == h[x[1]] - h[x[2]]
              IN VScale(d, q[2]) = VScale(q[1], VAdd(VScale(d, pos[x[1]]), VScale(h[x[1]], VSub(pos[x[2]], pos[x[1]]))))}
Clip_Fail(e, T) ==
   LET pos == e.pos
       h == TLCEval(Heights(pos, e.support, e.direction))
       O == e.topo
       reads == TLCEval([w \in Idx(e.out) |-> Readings(T, pos, h, e.out[w])])
       general == \A v \in Idx(h) : h[v] # 0
       \* a corner read as a point of triangle c
       as(w, c) == LET R == {x \in reads[w] : Rng(x) \subseteq Rng(c)} IN IF R = {} THEN << >> ELSE CHOOSE x \in R : TRUE
       in(t, c) == \A i \in Idx(t) : as(t[i], c) # << >>
       share(t, c) == Share(h, [i \in Idx(t) |-> as(t[i], c)], c)
       parents(t) == {p \in 1..Count(T, 2) : in(t, Cells(T)[p])}
       parent == TLCEval([j \in 1..Count(O, 2) |-> LET t == Cells(O)[j] P == parents(t) big == {p \in P : share(t, Cells(T)[p])[1] # 0}
                   IN IF big # {} THEN CHOOSE p \in big : TRUE ELSE IF P # {} THEN CHOOSE p \in P : TRUE ELSE 0])
       sh == TLCEval([j \in 1..Count(O, 2) |-> IF parent[j] = 0 THEN RZero ELSE share(Cells(O)[j], Cells(T)[parent[j]])])
       got(p) == FoldSet(LAMBDA j, acc: RAdd(acc, sh[j]), RZero, {j \in Idx(sh) : parent[j] = p})
       side(j) == LET t == Cells(O)[j] c == Cells(T)[parent[j]] IN [i \in Idx(t) |-> as(t[i], c)]
   IN CASE Raised(e) -> {"ClipRaised"}
        [] O.n # 2 \/ Len(e.out) # Count(O, 0) -> {"ClipDimension"}
        [] \E w \in Idx(e.out) : reads[w] = {} -> {"PointsOnMesh"}
        [] ComplexFailures(O) # {} -> ComplexFailures(O)
        [] general /\ Len(e.out) > Cardinality({v \in Idx(h) : h[v] < 0 \/ ~e.clip}) + Cardinality({i \in 1..Count(T, 1) : Crossed(h, T.E[2][i][1], T.E[2][i][2])}) -> {"PointsOnce"}
        \* where a folded mesh meets itself on the plane, points do not tell which triangle a piece came from
        [] \E w \in Idx(reads) : Cardinality(reads[w]) # 1 -> {}
        [] \E j \in Idx(parent) : parent[j] = 0 -> {"PiecesOfTriangles"}
        [] \E j \in Idx(sh) : sh[j][1] < 0 \/ (general /\ sh[j][1] = 0) -> {"PiecesKeepOrientation"}
        [] e.clip /\ (\E j \in Idx(parent) : \E x \in Rng(side(j)) : HeightOf(h, x) > 0) -> {"OnKeptSide"}
        [] ~e.clip /\ (\E j \in Idx(parent) : ~OneSide(h, side(j))) -> {"SplitAlongPlane"}
        [] \E p \in 1..Count(T, 2) : got(p) # (IF e.clip THEN KeptFraction(h, Cells(T)[p]) ELSE ROne) -> {"ExactlyTheKeptPart"}
        [] Oriented(T) /\ AtMostTwo(T) /\ ~Oriented(O) -> {"StaysOriented"}
        [] ~e.clip /\ general /\ (Euler(O) # Euler(T) \/ Cardinality(Components(O)) # Cardinality(Components(T))
             \/ Cardinality(OnceRows(O)) # Cardinality(OnceRows(T)) + Cardinality({i \in OnceRows(T) : Crossed(h, T.E[2][i][1], T.E[2][i][2])})) -> {"SplitStaysJoined"}
        [] OTHER -> {}

(* ---- extrusion ---- *)
SameTurn(s, t) == \E k \in 0..2 : t = [i \in 1..3 |-> s[((i + k - 1) % 3) + 1]]
Extrude_Fail(e, T) ==
   LET O == e.topo
       n == Count(T, 0)
       lift(c) == [i \in Idx(c) |-> c[i] + n]
       rim == {VSet(T.E[2][i]) : i \in OnceRows(T)}
       holds(s) == \E c \in Rng(Cells(O)) : SameTurn(s, c)
       wall(s) == {j \in 1..Count(O, 2) : LET v == VSet(Cells(O)[j]) IN v \subseteq s \cup {x + n : x \in s} /\ Cardinality({x \in v : x > n}) \in {1, 2}}
       rows == TLCEval(TopRows(O))
       pinched(i) == \E v \in 1..n : VSet(O.E[2][i]) = {v, v + n} /\ Cardinality({s \in rim : v \in s}) > 2
       vol6 == SumOver(1..Count(O, 2), LAMBDA j: Det([i \in 1..3 |-> e.out[Cells(O)[j][i]]]))
       area2 == SumOver(1..Count(T, 2), LAMBDA j: LET c == Cells(T)[j] a == VSub(e.pos[c[2]], e.pos[c[1]]) b == VSub(e.pos[c[3]], e.pos[c[1]]) IN a[1] * b[2] - a[2] * b[1])
   IN CASE Raised(e) -> {"ExtrudeRaised"}
        [] e.out # e.pos \o e.other -> {"ExtrudedPositions"}
        [] ComplexFailures(O) # {} -> ComplexFailures(O)
        [] Count(O, 2) # 2 * Count(T, 2) + 2 * Cardinality(rim) -> {"ExtrudedCount"}
        [] \E c \in Rng(Cells(T)) : ~(holds(c) /\ holds(Reverse(lift(c)))) -> {"BothEnds"}
        [] \E s \in rim : Cardinality(wall(s)) # 2 -> {"Walls"}
        \* walls meet pairwise, except where the mesh touches itself in a single vertex
        [] \E i \in DOMAIN rows : SumSeq([k \in Idx(rows[i]) |-> rows[i][k][2]]) # 0 \/ (~pinched(i) /\ Len(rows[i]) # 2) -> {"ClosedSolid"}
        [] e.flat # 0 /\ vol6 # -3 * area2 * e.flat -> {"PrismVolume"}
        [] OTHER -> {}

(* ---- triangle soup files ---- *)
Soup(T, pos) == [i \in 1..Count(T, 2) |-> [j \in 1..3 |-> pos[Cells(T)[i][j]]]]
StlWrite_Fail(e, T) ==
   LET want == Soup(T, e.pos)
       nrm(t) == Cross(VSub(t[2], t[1]), VSub(t[3], t[1]))
       along(n, m) == Dot(n, m) > 0 /\ \A i \in 1..3 : Abs(Cross(n, m)[i]) <= 2 * Max({Abs(m[x]) : x \in 1..3}) + 2
   IN CASE Raised(e) -> {"WriteRaised"}
        [] e.size # 84 + 50 * Count(T, 2) \/ e.count # Count(T, 2) -> {"FileLayout"}
        [] e.soup # want -> {"FileTriangles"}
        [] \E i \in Idx(want) : ~along(e.normals[i], nrm(want[i])) -> {"FileNormals"}
        [] OTHER -> {}
StlRead_Fail(e) ==
   CASE Raised(e) -> {"ReadRaised"}
     [] ComplexFailures(e.topo) # {} -> ComplexFailures(e.topo)
     [] Soup(e.topo, e.out) # e.soup -> {"ReadsSameTriangles"}
     [] Cardinality(Rng(e.out)) # Len(e.out) -> {"VerticesJoined"}
     [] OTHER -> {}
=============================================================================
