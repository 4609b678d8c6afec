----------------------------- MODULE MC_Multigrid -----------------------------
(* The cycles as the machine that runs them: a stack of activations, one       *)
(* callback per step.  Explored for every hierarchy built from the equations   *)
(* below, every cycle and count; checked: only finer-to-coarser nesting, the   *)
(* log and result of the machine are those of the recursive definition, right  *)
(* hand sides are never changed, every descent solves once, exact solutions    *)
(* survive v-cycles, and the error after a v-cycle depends on the error before *)
(* it alone.  Emits the runs for replay.                                       *)
EXTENDS Multigrid, Json, IOUtils
CONSTANTS MaxLevels, MaxIts, Label
VARIABLES h, kind, its, x0, y0, stack, log, ret, todo

\* one unknown per level: equations a, s, r, p, c, d
Eqs == {[A |-> <<<<a>>>>, S |-> <<<<s>>>>, R |-> <<<<r>>>>, P |-> <<<<p>>>>, C |-> <<<<c>>>>, D |-> <<<<d>>>>] :
        <<a, s, r, p, c, d>> \in {<<2, 1, 1, 3, 1, 0>>, <<3, 2, 5, 1, 7, 2>>, <<1, 3, 2, 2, 5, 1>>}}
Hier == UNION {[1..n -> Eqs] : n \in 1..MaxLevels}
Frame(n, pc, x, y) == [n |-> n, pc |-> pc, x |-> x, y |-> y]
Init == /\ h \in Hier /\ kind \in {"v", "repeat", "full"} /\ its \in 0..MaxIts /\ (kind = "v" => its = 0)
        /\ x0 \in {<<0>>, <<3>>} /\ y0 \in {<<1>>, <<5>>} /\ (kind = "full" => x0 = <<0>>)
        /\ log = << >> /\ ret = << >>
        \* outer program: cycles still to run on the finest level; full cycles descend first
        /\ todo = CASE kind = "v" -> 1 [] kind = "repeat" -> its [] OTHER -> 0
        /\ stack = CASE kind = "full" -> <<Frame(Len(h), "down", << >>, y0)>>
                     [] OTHER -> <<Frame(Len(h), "again", x0, y0)>>
Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
Set(f) == Append(Below, f)
Say(n, w) == Append(log, <<n, w>>)
Keep == UNCHANGED <<h, kind, its, x0, y0>>
\* full cycle: descend restricting the right hand side, solve, come back interpolating, then repeat v-cycles
Down == /\ Top.pc = "down" /\ Keep /\ UNCHANGED todo
        /\ IF Top.n = 1
           THEN stack' = Below /\ ret' = MgSolve(h[1], Top.y, MgZero(Top.y)) /\ log' = Say(1, "solve")
           ELSE /\ stack' = Set(Frame(Top.n, "up", << >>, Top.y)) \o <<Frame(Top.n - 1, "down", << >>, MgApply(h[Top.n].R, Top.y))>>
                /\ log' = Say(Top.n, "restrict") /\ UNCHANGED ret
Up == /\ Top.pc = "up" /\ ret # << >> /\ Keep
      /\ stack' = Set(Frame(Top.n, "again", MgApply(h[Top.n].P, ret), Top.y))
      /\ ret' = << >> /\ log' = Say(Top.n, "interpolate") /\ todo' = its
\* repeat v-cycles todo times
Again == /\ Top.pc = "again" /\ Keep /\ UNCHANGED log
         /\ IF ret # << >> THEN stack' = Set([Top EXCEPT !.x = ret]) /\ ret' = << >> /\ UNCHANGED todo
            ELSE IF todo = 0 THEN stack' = Below /\ ret' = Top.x /\ UNCHANGED todo
            ELSE stack' = Append(stack, Frame(Top.n, "pre", Top.x, Top.y)) /\ todo' = todo - 1 /\ UNCHANGED ret
\* v-cycle
Pre == /\ Top.pc = "pre" /\ Keep /\ UNCHANGED todo
       /\ IF Top.n = 1 THEN stack' = Below /\ ret' = MgSolve(h[1], Top.y, Top.x) /\ log' = Say(1, "solve")
          ELSE stack' = Set([Top EXCEPT !.pc = "res", !.x = MgSmooth(h[Top.n], Top.x, Top.y)]) /\ log' = Say(Top.n, "smooth") /\ UNCHANGED ret
Res == /\ Top.pc = "res" /\ Keep /\ UNCHANGED <<todo, ret>>
       /\ LET r == MgApply(h[Top.n].R, MgResidual(h[Top.n], Top.x, Top.y))
          IN stack' = Set([Top EXCEPT !.pc = "cor"]) \o <<Frame(Top.n - 1, "pre", MgZero(r), r)>>
       /\ log' = Say(Top.n, "restrict")
Cor == /\ Top.pc = "cor" /\ ret # << >> /\ Keep /\ UNCHANGED todo
       /\ stack' = Set([Top EXCEPT !.pc = "post", !.x = MgSub(Top.x, MgApply(h[Top.n].P, ret))])
       /\ ret' = << >> /\ log' = Say(Top.n, "interpolate")
Post == /\ Top.pc = "post" /\ Keep /\ UNCHANGED todo
        /\ stack' = Below /\ ret' = MgSmooth(h[Top.n], Top.x, Top.y) /\ log' = Say(Top.n, "smooth")
Next == stack # << >> /\ (Down \/ Up \/ Again \/ Pre \/ Res \/ Cor \/ Post)
Spec == Init /\ [][Next]_<<h, kind, its, x0, y0, stack, log, ret, todo>> /\ WF_<<h, kind, its, x0, y0, stack, log, ret, todo>>(Next)

Done == stack = << >>
Event == [h |-> h, how |-> kind, its |-> its, x |-> IF kind = "full" THEN << >> ELSE x0, y |-> y0]
Nesting == \A i \in 1..(Len(stack) - 1) : stack[i].n = stack[i + 1].n + (IF stack[i].pc = "again" THEN 0 ELSE 1)
MachineIsCycle == Done => ret = CycleMeaning(Event) /\ log = CycleLog(Event)
RightHandSideKept == stack # << >> => stack[1].y = y0
Solves == Done => Cardinality({i \in Idx(log) : log[i][2] = "solve"}) =
             (CASE kind = "v" -> 1 [] kind = "repeat" -> its [] OTHER -> 1 + its * (Len(h) - 1))
SmoothsInPairs == Done => \A n \in 2..Len(h) : Cardinality({i \in Idx(log) : log[i] = <<n, "smooth">>}) = 2 * Cardinality({i \in Idx(log) : log[i] = <<n, "interpolate">>}) - (IF kind = "full" THEN 2 ELSE 0)
\* algebra of one v-cycle
ExactSurvives == (Len(log) = 0 /\ Len(h) > 1) => \A v \in {<<0>>, <<1>>, <<4>>} : VCycle(h, Len(h), v, MgApply(h[Len(h)].A, v)) = v
ErrorAlone == (Len(log) = 0 /\ Len(h) > 1) => \A v \in {<<1>>, <<4>>} : \A e \in {<<2>>, <<9>>} :
     LET n == Len(h) y1 == MgApply(h[n].A, v) IN
     MgSub(VCycle(h, n, MgAdd(v, e), y1), v) = VCycle(h, n, e, <<0>>)
Finishes == <>Done
Emit == Done => PrintT(<<"PROG", ToJson(Event)>>)
=============================================================================
