------------------------------ MODULE MC_Synthetic ------------------------------
(* Growing the ready-made meshes one step at a time: a box gains an axis (the    *)
(* product with a path), a cross-polytope is suspended, a triangulated sphere    *)
(* has each triangle split in four, a ring has its segments split.  The closed   *)
(* formulas the specification checks the code against hold after every step.     *)
(* Emits the parameters.                                                         *)
EXTENDS Synthetic, Json, IOUtils
CONSTANTS MaxCells, MaxSide, MaxDim, MaxRefine, Label
VARIABLES what, par, cells, count

PathCells(m) == {<<{i - 1}, {i}>> : i \in 1..m}
Init == \/ what = "box" /\ par \in {<<m>> : m \in 1..MaxSide} /\ cells = {} /\ count = <<par[1] + 1, par[1]>>
        \/ what = "cross" /\ par = 1 /\ cells = {{<<1, 1>>}, {<<1, -1>>}} /\ count = <<>>
        \/ what = "ico" /\ par = 0 /\ cells = {} /\ count = <<12, 30, 20>>
        \/ what = "ring" /\ par = 0 /\ cells = {} /\ count = <<4, 4>>
\* product with a path of m cells: k-cells are k-cells x points or (k-1)-cells x segments
GrowBox == /\ what = "box" /\ Len(par) < MaxDim /\ \E m \in 1..MaxSide :
              /\ ProdSeq(par) * m <= MaxCells /\ par' = Append(par, m)
              /\ count' = [k \in 1..(Len(count) + 1) |-> (IF k <= Len(count) THEN count[k] * (m + 1) ELSE 0) + (IF k > 1 THEN count[k - 1] * m ELSE 0)]
           /\ UNCHANGED <<what, cells>>
Suspend == /\ what = "cross" /\ par < MaxDim /\ par' = par + 1
           /\ cells' = {c \cup {<<par + 1, s>>} : c \in cells, s \in {1, -1}} /\ UNCHANGED <<what, count>>
Quarter == /\ what = "ico" /\ par < MaxRefine /\ par' = par + 1
           /\ count' = <<count[1] + count[2], 2 * count[2] + 3 * count[3], 4 * count[3]>> /\ UNCHANGED <<what, cells>>
Halve == /\ what = "ring" /\ par < MaxRefine /\ par' = par + 1 /\ count' = <<count[1] + count[2], 2 * count[2]>> /\ UNCHANGED <<what, cells>>
Next == GrowBox \/ Suspend \/ Quarter \/ Halve
Spec == Init /\ [][Next]_<<what, par, cells, count>>

EulerOf(c) == SumOver(Idx(c), LAMBDA k: EvenSign(k - 1) * c[k])
BoxFormula == what = "box" => /\ count = [k \in 1..(Len(par) + 1) |-> BoxCount(par, k - 1)]
                              /\ EulerOf(count) = 1
                              /\ Cardinality(BoxPoints(par)) = count[1] /\ Cardinality(BoxBases(par)) = Last(count)
\* facets of unit cells as corner sets: interior ones twice, border ones once
FacetsOfCell(p) == {{c \in CellCorners(p) : c[a] = p[a] + s} : a \in Idx(p), s \in 0..1}
BoxBoundary == (what = "box" /\ ProdSeq(par) <= 24) =>
   LET F == UNION {FacetsOfCell(p) : p \in BoxBases(par)}
       uses(f) == Cardinality({p \in BoxBases(par) : f \in FacetsOfCell(p)})
   IN /\ \A f \in F : uses(f) \in {1, 2}
      /\ Cardinality({f \in F : uses(f) = 1}) = BoxFacets(par)
      /\ Cardinality(F) = count[Len(count) - 1]
CrossFormula == what = "cross" =>
   LET faces(k) == UNION {KSubsets(k, c) : c \in cells}
   IN /\ Cardinality(cells) = Pow(2, par)
      /\ \A k \in 1..par : Cardinality(faces(k)) = Pow(2, k) * Choose(par, k)
      /\ par > 1 => \A f \in faces(par - 1) : Cardinality({c \in cells : f \subseteq c}) = 2
SphereFormula == what = "ico" => /\ count = <<10 * Pow(4, par) + 2, 30 * Pow(4, par), 20 * Pow(4, par)>>
                                 /\ EulerOf(count) = 2 /\ count = <<count[1], 3 * count[1] - 6, 2 * count[1] - 4>>
RingFormula == what = "ring" => count = <<4 * Pow(2, par), 4 * Pow(2, par)>>
Shapes == UNION {{s \in [1..n -> 1..MaxSide] : ProdSeq(s) <= MaxCells} : n \in 1..MaxDim}
Dump == TLCGet("distinct") > 0 /\ ndJsonSerialize(IOEnv.GENDIR \o "/boxes-" \o Label \o ".ndjson", SetToSeq({[shape |-> s] : s \in Shapes}))
=============================================================================
