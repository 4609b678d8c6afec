------------------------------- MODULE MC_Pick -------------------------------
(* Design model of picking in a uniform grid of which any cells may be        *)
(* missing: answer = the cell whose centre is nearest, unless the caller's    *)
(* guess already holds the point.  Checked for every subset of cells, every   *)
(* point of a quarter lattice inside, every guess.  Emits every subset.       *)
EXTENDS Base, Json, IOUtils
CONSTANTS NX, NY, HX, HY, Label          \* cells per axis, widths (multiples of 4)
VARIABLES sel, pt, guess, answer, pc

All == (0..(NX - 1)) \X (0..(NY - 1))
Pts == {<<x, y>> : x \in {(HX \div 4) * i : i \in 0..(4 * NX)}, y \in {(HY \div 4) * i : i \in 0..(4 * NY)}}
Holds(c, p) == HX * c[1] <= p[1] /\ p[1] <= HX * (c[1] + 1) /\ HY * c[2] <= p[2] /\ p[2] <= HY * (c[2] + 1)
D2(c, p) == LET x == 2 * p[1] - HX * (2 * c[1] + 1) y == 2 * p[2] - HY * (2 * c[2] + 1) IN x * x + y * y
Nearest(S, p) == {c \in S : \A d \in S : D2(c, p) <= D2(d, p)}
Init == /\ sel \in (SUBSET All) \ {{}}
        /\ pt \in {p \in Pts : \E c \in sel : Holds(c, p)}
        /\ guess \in sel \cup {<<-1, -1>>}
        /\ answer = <<-1, -1>> /\ pc = "ask"
Try == pc = "ask" /\ guess # <<-1, -1>> /\ Holds(guess, pt) /\ answer' = guess /\ pc' = "done" /\ UNCHANGED <<sel, pt, guess>>
Query == /\ pc = "ask" /\ (guess = <<-1, -1>> \/ ~Holds(guess, pt))
         /\ answer' \in Nearest(sel, pt) /\ pc' = "done" /\ UNCHANGED <<sel, pt, guess>>
Next == Try \/ Query
Spec == Init /\ [][Next]_<<sel, pt, guess, answer, pc>> /\ WF_<<sel, pt, guess, answer, pc>>(Next)
HoldsPoint == pc = "done" => Holds(answer, pt)
Answered == <>(pc = "done")
Dump == TLCGet("distinct") > 0 /\ ndJsonSerialize(IOEnv.GENDIR \o "/grids-" \o Label \o ".ndjson",
          SetToSeq({[id |-> Label \o ToString(SumOver(S, LAMBDA c: Pow(2, c[1] * NY + c[2]))), nx |-> NX, ny |-> NY, hx |-> HX, hy |-> HY,
                     sel |-> SetToSeq(S)] : S \in (SUBSET All) \ {{}}}))
=============================================================================
