-------------------------------- MODULE Ledger --------------------------------
(* The ledger: what users and clients really authorized, and which           *)
(* credentials were handed out for it.  It is computed from the requests and *)
(* the responses alone (not from the store), so it is an independent account *)
(* of every history.                                                         *)
EXTENDS Check

NoLedger == [codes |-> {}, used |-> {}, ats |-> {}, appr |-> {}]
(* codes: [code, uid, cid]   used: codes redeemed successfully               *)
(* ats:   [at, rt, uid, cid, at0, ttl]  live access tokens                   *)
(* appr:  [uid, cid, scope, live]  the latest approval of each user/client   *)

Who(w, rq) == CASE Via(w, rq) = "header" -> rq.auth.id
                [] Via(w, rq) = "param" -> SecretParam(w, rq, "client_id")
                [] OTHER -> ClaimStr(rq.ca, "sub")
ApprOf(led, uid, cid) == {a \in led.appr : a.uid = uid /\ a.cid = cid}
Approve(led, uid, cid, scope) ==
  [led EXCEPT !.appr = (@ \ ApprOf(led, uid, cid)) \cup {[uid |-> uid, cid |-> cid, scope |-> scope, live |-> TRUE]}]
AddAt(led, at, rt, uid, cid, now, ttl) ==
  [led EXCEPT !.ats = @ \cup {[at |-> at, rt |-> rt, uid |-> uid, cid |-> cid, at0 |-> now, ttl |-> ttl]}]
CodeOf(led, code) == {x \in led.codes : x.code = code}
RtOf(led, rt) == {x \in led.ats : x.rt = rt /\ rt # ""}
AtOf(led, at) == {x \in led.ats : x.at = at}

(* a response that hands out a code or a token on the front channel          *)
FrontLedger(led, o, uid, cid, now) ==
  LET l1 == IF PV(o, "code") = "" THEN led ELSE [led EXCEPT !.codes = @ \cup {[code |-> PV(o, "code"), uid |-> uid, cid |-> cid]}]
  IN IF PV(o, "access_token") = "" THEN l1
     ELSE AddAt(l1, PV(o, "access_token"), "", uid, cid, now, IF IsInt(PV(o, "expires_in")) THEN IntVal(PV(o, "expires_in")) ELSE 0)

NextLedger(w, led, st, pend, stp) ==
  LET o == stp.obs rq == stp.rq now == stp.now gt == Param(rq, "grant_type")
  IN CASE stp.k = "token" /\ Success(o) ->
            (CASE gt = "authorization_code" ->
                   LET x == CodeOf(led, Param(rq, "code"))
                   IN IF x = {} THEN led ELSE LET y == CHOOSE z \in x : TRUE
                      IN AddAt([led EXCEPT !.used = @ \cup {y.code}], o.at, o.rt, y.uid, y.cid, now, o.expin)
               [] gt = "refresh_token" ->
                   LET x == RtOf(led, Param(rq, "refresh_token"))
                   IN IF x = {} THEN led ELSE LET y == CHOOSE z \in x : TRUE
                      IN AddAt([led EXCEPT !.ats = @ \ {y}], o.at, o.rt, y.uid, y.cid, now, o.expin)
               [] OTHER ->
                   LET ci == ClientIdx(w, Who(w, rq))
                   IN IF ci = 0 THEN led
                      ELSE LET uid == CASE gt = "password" -> (LET u == UserBy(w, Param(rq, "username"), Param(rq, "password"))
                                                               IN IF u = 0 THEN -1 ELSE w.users[u].uid)
                                        [] gt = "client_credentials" -> w.clients[ci].owner
                                        [] OTHER -> (LET u == UserSub(w, ClaimStr(rq.ja, "sub")) IN IF u = 0 THEN -1 ELSE w.users[u].uid)
                           IN AddAt(Approve(led, uid, w.clients[ci].id, Param(rq, "scope")), o.at, o.rt, uid, w.clients[ci].id, now, o.expin))
       [] stp.k = "authz" -> FrontLedger(led, o, stp.env.uid, Param(rq, "client_id"), now)
       [] stp.k = "complete" /\ rq.pend \in DOMAIN pend /\ ~o.hit ->
            FrontLedger(Approve(led, stp.env.uid, pend[rq.pend].cid, pend[rq.pend].scope), o, stp.env.uid, pend[rq.pend].cid, now)
       [] stp.k = "revoke" ->
            LET ii == InfoIdx(st, rq.auth_)
            IN IF ii = 0 THEN led
               ELSE [led EXCEPT !.appr = {IF a.uid = st.infos[ii].uid /\ a.cid = st.infos[ii].cid THEN [a EXCEPT !.live = FALSE] ELSE a : a \in @}]
       [] OTHER -> led

Entitled(led, e, now) == (\E a \in ApprOf(led, e.uid, e.cid) : a.live) /\ now <= e.at0 + e.ttl

CheckLedger(w, led, stp) ==
  LET o == stp.obs rq == stp.rq now == stp.now gt == Param(rq, "grant_type")
  IN CASE stp.k = "res" ->
            LET es == AtOf(led, ResToken(w, rq))
            IN IF o.ret
               THEN VIf(es = {}, {"C29", "C25"}, "admitted without a credential that descends from an approval")
                    \cup UNION {VIf(~Entitled(led, e, now), {"C29", "C25"}, "admitted after revocation or expiry")
                                \cup VIf(o.huid # Str(e.uid) \/ o.hcid # e.cid, {"C29", "C25"}, "admitted as somebody else")
                                \cup VIf(\A a \in ApprOf(led, e.uid, e.cid) : a.scope # o.hscope, {"C29", "C25"}, "admitted with a scope not approved") : e \in es}
               ELSE VIf(~o.hit /\ PathScopes(w, rq) = {} /\ \E e \in es : Entitled(led, e, now), {"C29", "C25"}, "a live credential does not reach the resource")
       [] stp.k = "token" /\ Success(o) ->
            (CASE gt = "authorization_code" ->
                   LET x == CodeOf(led, Param(rq, "code"))
                   IN VIf(x = {}, {"C29"}, "a code nobody was given is redeemed")
                      \cup VIf(\E y \in x : y.cid # Who(w, rq), {"C29", "C03"}, "redeemed by another client")
                      \cup VIf(Param(rq, "code") \in led.used, {"C04"}, "redeemed twice")
               [] gt = "refresh_token" ->
                   LET x == RtOf(led, Param(rq, "refresh_token"))
                   IN VIf(x = {}, {"C29", "C08"}, "a refresh token nobody was given is honoured")
                      \cup VIf(\E y \in x : y.cid # Who(w, rq), {"C29", "C08"}, "refreshed by another client")
                      \cup VIf(\E y \in x : \A a \in ApprOf(led, y.uid, y.cid) : ~a.live, {"C29", "C08"}, "refreshed after revocation")
               [] OTHER -> {})
       [] OTHER -> {}
=============================================================================
