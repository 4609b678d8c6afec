------------------------------ MODULE MC_History ------------------------------
(* Programs over a growing pool, and why they are pure: things share parts,    *)
(* answers are remembered per thing, and every operation writes only to parts  *)
(* it has just made.  Faults names disciplines that are dropped:               *)
(*   "in place"  a derived part overwrites the one it was derived from          *)
(*   "stale"     a derived thing inherits the remembered answers               *)
(*   "shared"    answers are remembered per operation, not per thing           *)
EXTENDS Purity, TLC, Json, IOUtils
\* Surveys: programs that ask everything of the newest thing before every step
CONSTANTS Kinds, MaxLen, Faults, Emit, Surveys
VARIABLES start, prog, pool, store, memo

vars == <<start, prog, pool, store, memo>>
Sides == {"pos", "str"}
\* the value of a part: the operations that went into it
Base(i) == [kind |-> start, term |-> << >>, root |-> i, at |-> [p \in Sides |-> <<i, p>>]]
Init == /\ start \in Kinds
        /\ prog = << >>
        /\ pool = <<Base(1), Base(2)>>
        /\ store = [x \in {<<i, p>> : i \in 1..2, p \in Sides} |-> <<"given", ToString(x[1]), x[2]>>]
        /\ memo = << >>
Look(o, s) == [p \in Sides |-> s[o.at[p]]]
RECURSIVE Denotes(_, _, _)
\* what the parts of a thing should be, from its term alone
Denotes(k, look, term) ==
   IF term = << >> THEN look
   ELSE LET m == CHOOSE m \in Menus[k] : m.op = Head(term)
        IN Denotes(m.makes, [p \in Sides |-> IF p \in m.own THEN <<m.op, look>> ELSE look[p]], Tail(term))
Should(o) == Denotes(start, [p \in Sides |-> <<"given", ToString(o.root), p>>], o.term)
Key(i, op) == IF "shared" \in Faults THEN <<0, op>> ELSE <<i, op>>
Query(i, m) ==
   LET k == Key(i, m.op)
   IN memo' = IF k \in DOMAIN memo THEN memo ELSE memo @@ (k :> Look(pool[i], store))
MakeNew(i, m) ==
   LET o == pool[i]
       j == Len(pool) + 1
       inplace == "in place" \in Faults
       at == [p \in Sides |-> IF p \in m.own /\ ~inplace THEN <<j, p>> ELSE o.at[p]]
       fresh == [p \in m.own |-> <<m.op, Look(o, store)>>]
   IN /\ pool' = Append(pool, [kind |-> m.makes, term |-> Append(o.term, m.op), root |-> o.root, at |-> at])
      /\ store' = [x \in DOMAIN store \cup {at[p] : p \in m.own} |-> IF \E p \in m.own : at[p] = x THEN fresh[CHOOSE p \in m.own : at[p] = x] ELSE store[x]]
      /\ memo' = IF "stale" \in Faults THEN memo @@ [k \in {<<j, x[2]>> : x \in {x \in DOMAIN memo : x[1] = i}} |-> memo[<<i, k[2]>>]] ELSE memo
\* everything a thing can be asked, at once: the most that can be remembered of it
Survey(i) ==
   LET ks == {Key(i, m.op) : m \in {m \in Menus[pool[i].kind] : m.makes = "value"}}
   IN memo' = memo @@ [k \in ks |-> Look(pool[i], store)]
Surveying == /\ Surveys /\ Len(prog) < MaxLen /\ Len(prog) % 2 = 0
             /\ LET i == IF prog = << >> THEN 1 ELSE Len(pool)
                IN Survey(i) /\ prog' = Append(prog, [at |-> i, op |-> "everything"])
             /\ UNCHANGED <<start, pool, store>>
Working ==
   /\ Len(prog) < MaxLen
   /\ Surveys => Len(prog) % 2 = 1
   /\ \E i \in Idx(pool) : \E m \in Menus[pool[i].kind] :
         /\ prog = << >> => i = 1
         /\ Surveys => m.makes /= "value" /\ i = prog[Len(prog)].at
         /\ prog' = Append(prog, [at |-> i, op |-> m.op])
         /\ IF m.makes = "value" THEN Query(i, m) /\ UNCHANGED <<pool, store>> ELSE MakeNew(i, m)
   /\ UNCHANGED start
   /\ (Emit /\ Len(prog') = MaxLen) => PrintT(<<"PROG", ToJson([kind |-> start, prog |-> prog'])>>)
Next == Surveying \/ Working
Spec == Init /\ [][Next]_vars
Dump == TLCGet("distinct") > 0 /\ ndJsonSerialize(IOEnv.GENDIR \o "/menus.ndjson", <<[k \in DOMAIN Menus |-> SetToSeq({[op |-> m.op, makes |-> m.makes] : m \in Menus[k]})]>>)
\* every held thing is what its term says
Unaltered == \A i \in Idx(pool) : Look(pool[i], store) = Should(pool[i])
\* every remembered answer is the one a thing made afresh would give
Faithful == \A k \in DOMAIN memo : \A i \in Idx(pool) : (k[1] \in {i, 0} /\ OnMenu(pool[i].kind, k[2])) => memo[k] = Should(pool[i])
=============================================================================
