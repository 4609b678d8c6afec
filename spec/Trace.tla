-------------------------------- MODULE Trace --------------------------------
(* Validates one recorded trace of the implementation against the            *)
(* specification.  Every line is consumed; the verdict is total: `bad`       *)
(* collects <<line, failing clause>> and is written out at the end.  The     *)
(* behaviour is accepted iff bad = <<>>.                                     *)
EXTENDS Workbench, Json, IOUtils

VARIABLES l, bad

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Verdict(e) ==
   CASE e.op = "case"    -> {}
     [] e.op = "escaped" -> {"UnexpectedException"}
     [] OTHER            -> TopoVerdict(e)

Init == HeapInit /\ l = 1 /\ bad = << >>
Step ==
   /\ l <= Len(TraceLog)
   /\ LET e == TraceLog[l] IN
        /\ PrintT(<<"AT", l>>)
        /\ bad' = bad \o SetToSeq({[line |-> l, clause |-> c] : c \in Verdict(e)})
        /\ HeapNext(e)
   /\ l' = l + 1
Done == l = Len(TraceLog) + 1 /\ PrintT(<<"VERDICT", ToJson(bad)>>) /\ l' = l + 1 /\ UNCHANGED <<heap, bad>>
Next == Step \/ Done
Spec == Init /\ [][Next]_<<heap, l, bad>>
\* every line was consumed and the final verdict printed
Consumed == TLCGet("stats").diameter = Len(TraceLog) + 2
=============================================================================
