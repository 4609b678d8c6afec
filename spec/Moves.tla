--------------------------------- MODULE Moves ---------------------------------
(* Moving complexes about: translations, scalings, linear and projective maps   *)
(* act on row vectors in homogeneous coordinates; a moved complex is a copy     *)
(* with the same cells, and casts are the same complex under another name.      *)
EXTENDS Velocity

\* the homogeneous matrix of a move of points of dimension d
HomOf(how, d) ==
   LET M == how[2] IN
   CASE how[1] = "translate" -> [i \in 1..(d + 1) |-> [j \in 1..(d + 1) |-> IF i = j THEN 1 ELSE IF i = d + 1 THEN M[j] ELSE 0]]
     [] how[1] = "scale"     -> [i \in 1..(d + 1) |-> [j \in 1..(d + 1) |-> IF i # j THEN 0 ELSE IF i = d + 1 THEN 1 ELSE M]]
     [] how[1] = "linear"    -> [i \in 1..(d + 1) |-> [j \in 1..(Len(M[1]) + 1) |->
                                   IF i <= d /\ j <= Len(M[1]) THEN M[i][j] ELSE IF i = d + 1 /\ j = Len(M[1]) + 1 THEN 1 ELSE 0]]
     [] OTHER                -> M
RowTimes(x, M) == [j \in Idx(M[1]) |-> SumSeq([i \in Idx(x) |-> x[i] * M[i][j]])]
MatTimes(A, B) == [i \in Idx(A) |-> RowTimes(A[i], B)]
\* homogeneous image of the rational point <<D, x>>
Moved(p, M) == RowTimes(Append(p[2], p[1]), M)
AtImage(q, y) == /\ y[Len(y)] # 0
                 /\ Len(q[2]) = Len(y) - 1
                 /\ \A a \in Idx(q[2]) : q[2][a] * y[Len(y)] = q[1] * y[a]
RECURSIVE HomOfAll(_, _)
HomOfAll(hows, d) == IF Len(hows) = 1 THEN HomOf(hows[1], d)
                     ELSE LET F == HomOf(hows[1], d) IN MatTimes(F, HomOfAll(Tail(hows), Len(F[1]) - 1))
\* a box <<low, high>>, each coordinate a point of the line, fits tightly around points
TightBox(box, ps) ==
   /\ Len(box) = 2
   /\ \A s \in {1, 2} : Len(box[s]) = Len(ps[1][2])
   /\ \A a \in Idx(ps[1][2]) : \A s \in {1, 2} :
      LET b == box[s][a]
          beyond(q) == IF s = 1 THEN b[2][1] * q[1] <= q[2][a] * b[1] ELSE b[2][1] * q[1] >= q[2][a] * b[1]
      IN /\ \A i \in Idx(ps) : beyond(ps[i])
         /\ \E i \in Idx(ps) : b[2][1] * ps[i][1] = ps[i][2][a] * b[1]
Move_Fail(e, T) ==
   LET k == Len(e.hows)
       at(i) == IF i = 0 THEN e.before ELSE e.after[i]
       dim(i) == Len(at(i)[1][2])
   IN CASE Raised(e) -> {"MoveRaised"}
        [] Len(e.after) # k \/ \E i \in 1..k : Len(e.after[i]) # Len(e.before) -> {"OnePositionPerVertex"}
        [] \E i \in 1..k : \E v \in Idx(e.before) : ~AtImage(e.after[i][v], Moved(at(i - 1)[v], HomOf(e.hows[i], dim(i - 1)))) -> {"PositionsMoved"}
        [] \E v \in Idx(e.before) : ~AtImage(e.after[k][v], Moved(e.before[v], HomOfAll(e.hows, dim(0)))) -> {"MovesCompose"}
        [] \E i \in 1..k : e.kinds[i] # e.kind -> {"KeepsKind"}
        [] \E i \in 1..k : e.dims[i] # dim(i) -> {"EmbeddingDimension"}
        [] \E i \in 1..k : e.topos[i] # T -> {"KeepsTopology"}
        [] \E i \in 1..k : e.keeps[i] # e.weights -> {"KeepsWeights"}
        [] \E i \in 1..k : ~e.origin[i] -> {"RemembersOrigin"}
        [] \E i \in 1..k : ~TightBox(e.boxes[i], e.after[i]) -> {"TightBox"}
        [] e.again # e.before -> {"OriginalStays"}
        [] OTHER -> {}

\* casts: what they are for, and what comes out
CastTo == [as_11 |-> <<1, 1, "ComplexCubical1Euclidian1">>, as_12 |-> <<1, 2, "ComplexCubical1Euclidian2">>, as_22 |-> <<2, 2, "ComplexCubical2Euclidian2">>,
           as_23 |-> <<2, 3, "ComplexCubical2Euclidian3">>, as_33 |-> <<3, 3, "ComplexCubical3Euclidian3">>, as_44 |-> <<4, 4, "ComplexCubical4Euclidian4">>]
RegularTo == <<"ComplexRegular1", "ComplexRegular2", "ComplexRegular3", "ComplexRegular4">>
\* whether a cast applies to a complex of topology T in dimension d, and to which class
Applies(name, T, d) ==
   CASE name \in DOMAIN CastTo -> T.kind = "cubical" /\ CastTo[name][1] = T.n /\ CastTo[name][2] = d
     [] name = "as_regular" -> T.kind = "cubical" /\ T.n = d
     [] name = "as_cube" -> T.kind = "simplicial" /\ T.n = 1
     [] name = "to_simplicial" -> T.kind = "cubical" /\ T.n = 1
     [] name = "as_triangular" -> T.kind = "simplicial" /\ T.n = 2
     [] name = "as_2" -> T.kind = "simplicial" /\ T.n = 2 /\ d = 2
     [] OTHER -> T.kind = "simplicial" /\ T.n = 2 /\ d = 3
ClassOf(name, T) ==
   CASE name \in DOMAIN CastTo -> CastTo[name][3]
     [] name = "as_regular" -> RegularTo[T.n]
     [] name = "as_cube" -> "ComplexCubical1"
     [] name = "to_simplicial" -> "ComplexSimplicialEuclidian"
     [] name = "as_triangular" -> "ComplexTriangularEuclidian"
     [] name = "as_2" -> "ComplexTriangularEuclidian2"
     [] OTHER -> "ComplexTriangularEuclidian3"
RefusedBy(name) == IF name \in DOMAIN CastTo THEN "TypeError" ELSE IF name = "as_triangular" THEN "ValueError" ELSE "AssertionError"
Cast_Fail(e, T) ==
   CASE ~Applies(e.name, T, e.dim) -> IF Raised(e) /\ e.raised = RefusedBy(e.name) THEN {} ELSE {"RefusesWrongCast"}
     [] Raised(e) -> {"CastRaised"}
     [] e.class # ClassOf(e.name, T) -> {"CastToClass"}
     [] e.pos # e.coarse -> {"CastKeepsPositions"}
     [] ~(e.name \in {"as_cube", "to_simplicial"}) /\ e.topology # T -> {"CastKeepsTopology"}
     [] e.name \in {"as_cube", "to_simplicial"} /\ Cells(e.topology) # Cells(T) -> {"CastKeepsCells"}
     [] e.name \in {"as_cube", "to_simplicial"} /\ ComplexFailures(e.topology) # {} -> ComplexFailures(e.topology)
     [] Has(e, "weights") /\ e.name # "as_cube" /\ e.keeps # e.weights -> {"CastKeepsWeights"}
     [] OTHER -> {}
MoveOps == {"move", "cast"}
MoveOp_Fail(e, T) == IF e.op = "move" THEN Move_Fail(e, T) ELSE Cast_Fail(e, T)
=============================================================================
