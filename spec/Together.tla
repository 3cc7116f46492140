------------------------------- MODULE Together -------------------------------
(* Requests handled at the same time.                                        *)
EXTENDS Ledger

(* A request the store told "somebody else was first" (a test-and-set that   *)
(* failed) is judged like one whose store operation failed.                  *)
MethodOf(op) == CASE op = "disable" -> "DisableSession" [] op = "record" -> "RecordAssertionClaims" [] OTHER -> "RefreshAccessToken"
Beaten(o) == {op \in {"disable", "record", "refresh"} :
  Ops(o, op) # <<>> /\ \A i \in DOMAIN Ops(o, op) : ~Ops(o, op)[i].ok}
AsBeaten(stp) ==
  IF Beaten(stp.obs) = {} \/ stp.obs.hit THEN stp
  ELSE [stp EXCEPT !.obs.hit = TRUE, !.fault = [m |-> MethodOf(CHOOSE op \in Beaten(stp.obs) : TRUE), kind |-> "failed", n |-> 0]]

(* competing requests: some order of them has to explain what was observed   *)
Orders(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : p[i] = p[j] => i = j}
RECURSIVE InOrder(_, _, _, _, _, _)
InOrder(w, st, pend, steps, p, i) ==
  IF i > Len(steps) THEN {}
  ELSE LET s == AsBeaten(steps[p[i]])
       IN CheckStep(w, st, pend, s) \cup InOrder(w, NextStore(st, s), pend \o Shown(s.obs), steps, p, i + 1)
Real(b) == {x \in b : x[1] # "K1"}
JudgeRace(w, st, pend, steps) ==
  LET os == Orders(Len(steps))
  IN IF \E p \in os : Real(InOrder(w, st, pend, steps, p, 1)) = {} THEN {}
     ELSE LET all == {Real(InOrder(w, st, pend, steps, p, 1)) : p \in os}
          IN CHOOSE b \in all : \A c \in all : Cardinality(b) <= Cardinality(c)

(* requests that have nothing to do with each other: whatever is wrong with  *)
(* one of them here must be wrong with it alone, too                         *)
JudgeApart(w, st, pend, stp) ==
  LET here == CheckStep(w, st, pend, stp)
      alone == CheckStep(w, st, pend, [stp EXCEPT !.obs = stp.solo])
  IN {<<"C28", x[1] \o ": " \o x[2]>> : x \in Real(here) \ Real(alone)}
=============================================================================
