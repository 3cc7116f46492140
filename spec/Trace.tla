-------------------------------- MODULE Trace --------------------------------
(* Trace validation.  Every line of the recorded file is one scenario that   *)
(* was run against the real code; every step of it becomes one transition    *)
(* here, judged by CheckStep in the store the previous steps led to, and by  *)
(* the ledger of what users and clients actually authorized (module Ledger). *)
EXTENDS Together, Json, IOUtils, SequencesExt

TraceFile == IOEnv.TRACE
WorldFile == IOEnv.WORLDS
Worlds == ndJsonDeserialize(WorldFile)
Recorded == ndJsonDeserialize(TraceFile)
Total == Len(Recorded)
Steps == FoldLeft(LAMBDA a, x : a + Len(x.steps), 0, Recorded)

VARIABLES seg, pos, st, pend, led, bad
vars == <<seg, pos, st, pend, led, bad>>

Init == /\ seg \in 1..Total
        /\ pos = 0
        /\ st = [infos |-> Recorded[seg].st.infos, sess |-> Recorded[seg].st.sess,
                 toks |-> Recorded[seg].st.toks, jtis |-> Recorded[seg].st.jtis]
        /\ pend = Recorded[seg].st.pend
        /\ led = NoLedger
        /\ bad = {}

Report(s, p, b) == \A x \in b : PrintT("VIOL|" \o Str(s) \o "|" \o Str(p) \o "|" \o x[1] \o "|" \o x[2])

Next ==
  /\ pos < Len(Recorded[seg].steps)
  /\ pos' = pos + 1
  /\ UNCHANGED seg
  /\ LET stp == Recorded[seg].steps[pos + 1]
         w == Worlds[IF stp.alt THEN Recorded[seg].w2 ELSE Recorded[seg].w]
         conc == Recorded[seg].conc
     IN /\ bad' = CASE conc \in {"", "wall"} -> CheckStep(w, st, pend, stp)
                                    \cup (IF Recorded[seg].fam = "hist" THEN CheckLedger(w, led, stp) ELSE {})
                    \* competing requests are judged together
                    [] conc = "race" -> IF pos + 1 < Len(Recorded[seg].steps) THEN {} ELSE JudgeRace(w, st, pend, Recorded[seg].steps)
                    \* independent ones each in the store they started from
                    [] OTHER -> JudgeApart(w, st, pend, stp)
        /\ Report(seg, pos + 1, bad')
        /\ st' = IF conc \in {"", "wall"} THEN NextStore(st, stp) ELSE st
        /\ pend' = IF conc \in {"", "wall"} THEN pend \o Shown(stp.obs) ELSE pend
        /\ led' = IF Recorded[seg].fam = "hist" THEN NextLedger(w, led, st, pend, stp) ELSE led

Spec == Init /\ [][Next]_vars
(* every recorded step was consumed                                          *)
Consumed == TLCGet("stats").distinct = Total + Steps
=============================================================================
