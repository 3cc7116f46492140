------------------------------ MODULE KeysTrace -------------------------------
(* Recorded histories of registrations are behaviours of Keys.               *)
EXTENDS Keys, Json, IOUtils, SequencesExt, TLC

Recorded == ndJsonDeserialize(IOEnv.TRACE)
Steps == FoldLeft(LAMBDA a, x : a + Len(x.ops), 0, Recorded)
VARIABLES seg, pos, s
vars == <<seg, pos, s>>
Init == seg \in 1..Len(Recorded) /\ pos = 0 /\ s = Start
Next == /\ pos < Len(Recorded[seg].ops)
        /\ pos' = pos + 1
        /\ UNCHANGED seg
        /\ LET op == Recorded[seg].ops[pos + 1] IN
           /\ \A x \in KeyStep(s, op) : PrintT("VIOL|" \o ToString(seg) \o "|" \o ToString(pos + 1) \o "|C30|" \o x)
           /\ s' = NextKeys(s, op)
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").distinct = Len(Recorded) + Steps
=============================================================================
