-------------------------------- MODULE MC_Clip --------------------------------
(* Heights are given to the vertices of small meshes one after the other; then  *)
(* the mesh is cut by inserting a point on every crossed edge and splitting     *)
(* every crossed triangle in three.  The pieces tile their triangle, lie on one *)
(* side, keep the orientation and fit together.  Emits the meshes and heights.  *)
EXTENDS Clipping, Json, IOUtils
CONSTANTS MaxHeight, WithZero, Label
VARIABLES m, hs

Meshes == << << <<1, 2, 3>> >>, << <<1, 2, 3>>, <<3, 2, 4>> >>, << <<1, 2, 3>>, <<1, 3, 4>>, <<1, 4, 5>> >>,
             << <<1, 2, 3>>, <<1, 4, 2>>, <<2, 4, 3>>, <<1, 3, 4>> >>, << <<1, 2, 5>>, <<2, 3, 5>>, <<3, 4, 5>>, <<4, 1, 5>> >> >>
Size(i) == Cardinality(UNION {Rng(c) : c \in Rng(Meshes[i])})
Hts == {x \in (-MaxHeight)..(MaxHeight + 1) : x # 0 \/ WithZero}
Init == m \in Idx(Meshes) /\ hs = << >>
Next == Len(hs) < Size(m) /\ \E x \in Hts : hs' = Append(hs, x) /\ m' = m
Spec == Init /\ [][Next]_<<m, hs>>

Ready == Len(hs) = Size(m)
Up(v) == hs[v] > 0
Cross2(a, b) == IF a < b THEN <<a, b>> ELSE <<b, a>>
Mixed(c) == Cardinality({Up(v) : v \in Rng(c)}) = 2
Tip(c) == CHOOSE i \in 1..3 : \A j \in 1..3 : i # j => Up(c[i]) # Up(c[j])
Pieces(c) == IF ~Mixed(c) THEN {[i \in 1..3 |-> <<c[i]>>]}
             ELSE LET t == Tip(c)
                      a == c[t] b == c[(t % 3) + 1] d == c[((t + 1) % 3) + 1]
                  IN {<<<<a>>, Cross2(a, b), Cross2(a, d)>>, <<<<b>>, Cross2(a, d), Cross2(a, b)>>, <<<<d>>, Cross2(a, d), <<b>>>>}
RSumS(S, f(_)) == FoldSet(LAMBDA x, acc: RAdd(acc, f(x)), RZero, S)
Kept(xs) == \A i \in 1..3 : HeightOf(hs, xs[i]) <= 0
All == UNION {Pieces(c) : c \in Rng(Meshes[m])}
Tiles == Ready => \A c \in Rng(Meshes[m]) :
   /\ \A xs \in Pieces(c) : LET s == Share(hs, xs, c) IN s[1] >= 0 /\ ((\A v \in Rng(c) : hs[v] # 0) => s[1] > 0) /\ OneSide(hs, xs)
   /\ RSumS(Pieces(c), LAMBDA xs: Share(hs, xs, c)) = ROne
   /\ RSumS({xs \in Pieces(c) : ~\E i \in 1..3 : HeightOf(hs, xs[i]) > 0}, LAMBDA xs: Share(hs, xs, c)) = KeptFraction(hs, c)
\* directed edges of the pieces: each at most once, so that neighbours agree in orientation
Directed(xs) == {<<xs[i], xs[(i % 3) + 1]>> : i \in 1..3}
FitTogether == Ready =>
   /\ \A x, y \in All : x # y => Directed(x) \cap Directed(y) = {}
   /\ LET D == UNION {Directed(x) : x \in All}
          D0 == UNION {{<<c[i], c[(i % 3) + 1]>> : i \in 1..3} : c \in Rng(Meshes[m])}
          open0 == {d \in D0 : <<d[2], d[1]>> \notin D0}
          open == {d \in D : <<d[2], d[1]>> \notin D}
      IN Cardinality(open) = Cardinality(open0) + Cardinality({d \in open0 : Up(d[1]) # Up(d[2])})
\* the two halves add up
Halves == Ready => \A c \in Rng(Meshes[m]) : (\A v \in Rng(c) : hs[v] # 0) => RAdd(KeptFraction(hs, c), KeptFraction([v \in Idx(hs) |-> -hs[v]], c)) = ROne
Dump == TLCGet("distinct") > 0 /\ ndJsonSerialize(IOEnv.GENDIR \o "/cuts-" \o Label \o ".ndjson",
          SetToSeq(UNION {{[cells |-> Meshes[i], h |-> s] : s \in [1..Size(i) -> Hts]} : i \in {i \in Idx(Meshes) : Size(i) <= 4}}))
=============================================================================
