------------------------------- MODULE Predict -------------------------------
(* The specification run forwards: the observation a correct provider makes  *)
(* of a step, in a store, with the counters from which the store names new   *)
(* tokens, codes and authorizations.                                         *)
EXTENDS Ledger

Eff0 == [op |-> "", ok |-> TRUE, auth |-> 0, cid |-> "", uid |-> 0, sub |-> "", scope |-> "", granted |-> "", code |-> "", ruri |-> "", verifier |-> "", nonce |-> "",
  ttl |-> 0, authTime |-> 0, idTTL |-> 0, at |-> "", rt |-> "", attl |-> 0, rttl |-> 0, front |-> FALSE, old |-> "", jti |-> "", iat |-> 0, exp |-> 0,
  refreshed |-> 0, created |-> 0]
IdT0 == [has |-> FALSE, key |-> "none", alg |-> "", kid |-> "", iss |-> "", aud |-> "", sub |-> "", nonce |-> "", iat |-> 0, exp |-> 0, at |-> -1,
  atHash |-> "none", cHash |-> "none"]
Req0 == [cid |-> "", rt |-> "none", scope |-> "", ruri |-> "", mode |-> "", state |-> "", verifier |-> "", nonce |-> "", display |-> "", prompt |-> "",
  maxAge |-> 0, locale |-> "", idHint |-> "", lgHint |-> ""]
Obs0 == [panic |-> FALSE, why |-> "", hang |-> FALSE, hit |-> FALSE, alien |-> FALSE, ret |-> FALSE, nw |-> 0, status |-> 0, ctype |-> "none", cc |-> "", pragma |-> "",
  chal |-> [scheme |-> "none", realm |-> "", err |-> "", euri |-> ""], kind |-> "none", err |-> "", euri |-> "", tt |-> "", at |-> "", expin |-> -1,
  rt |-> "", scope |-> "", idt |-> IdT0, eff |-> <<>>, screens |-> <<>>, resp |-> [via |-> "none", target |-> "", params |-> <<>>, safe |-> FALSE, nocache |-> FALSE],
  huid |-> "", hcid |-> "", hscope |-> "", leak |-> ""]
Cnt0 == [tok |-> 0, code |-> 0, info |-> 0]

RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Listed(S \ {x})
One(S) == CHOOSE x \in S : TRUE

(* ------------------------------------------------------- what the store does *)
IssuesRt(w, scope) == CASE w.tok.rtpol = "always" -> TRUE [] w.tok.rtpol = "never" -> FALSE [] OTHER -> HasWord(scope, "offline_access")
GrantScope(w, scope) == CASE w.tok.scpol = "first" -> Words(scope)[1] [] w.tok.scpol = "more" -> scope \o " extra" [] w.tok.scpol = "none" -> "" [] OTHER -> scope
NewTok(w, cnt, auth, scope, now, front) ==
  LET n == Str(cnt.tok + 1)
  IN [Eff0 EXCEPT !.op = "token", !.auth = auth, !.at = "AT-" \o n, !.rt = IF ~front /\ IssuesRt(w, scope) THEN "RT-" \o n ELSE "",
                  !.attl = w.tok.attl, !.rttl = w.tok.rttl, !.refreshed = now, !.created = now, !.front = front]
NewInfo(w, st, cnt, uid, cid, scope) ==
  LET ii == InfoOf(st, uid, cid)
  IN [Eff0 EXCEPT !.op = "info", !.uid = uid, !.cid = cid, !.scope = scope, !.granted = GrantScope(w, scope),
        !.auth = IF ii # 0 THEN st.infos[ii].id ELSE 901 + cnt.info,
        !.sub = IF ii # 0 THEN st.infos[ii].sub ELSE "sub-" \o Str(uid) \o "-" \o cid]
NewRec(st, r) == [Eff0 EXCEPT !.op = "record", !.ok = ~Replayed(st, r), !.cid = r.cid, !.jti = r.jti, !.iat = r.iat, !.exp = r.exp]
Recs(st, r) == LET l == Listed(RecSet(r)) IN [i \in DOMAIN l |-> NewRec(st, l[i])]

Bump(st, cnt, o) ==
  [tok |-> cnt.tok + Cardinality({i \in DOMAIN o.eff : o.eff[i].op \in {"token", "refresh"} /\ o.eff[i].ok}),
   code |-> cnt.code + Cardinality({i \in DOMAIN o.eff : o.eff[i].op = "code"}),
   info |-> cnt.info + Cardinality({i \in DOMAIN o.eff : o.eff[i].op = "info" /\ o.eff[i].ok /\ InfoOf(st, o.eff[i].uid, o.eff[i].cid) = 0})]

IdTok(c, w, now, sub, nonce, exp, at) ==
  [IdT0 EXCEPT !.has = TRUE, !.key = c.idkey, !.alg = c.idalg, !.kid = c.idkid, !.iss = w.issuer, !.aud = c.id, !.sub = sub, !.nonce = nonce,
               !.iat = now, !.exp = exp, !.at = IF at < 0 THEN -1 ELSE at]

(* ---------------------------------------------------------- token endpoint *)
TokOk(tok, scope, effs, idt) ==
  [Obs0 EXCEPT !.nw = 1, !.status = 200, !.ctype = "json", !.cc = "no-store", !.pragma = "no-cache", !.kind = "json", !.tt = "Bearer",
     !.at = tok.at, !.expin = tok.attl, !.rt = tok.rt, !.scope = scope, !.idt = idt, !.eff = effs]
TokErr(w, code, effs) ==
  IF code = "405" THEN [Obs0 EXCEPT !.nw = 1, !.status = 405, !.kind = "empty", !.eff = effs]
  ELSE [Obs0 EXCEPT !.nw = 1, !.status = TokStatus(code), !.ctype = "json", !.cc = "no-store", !.pragma = "no-cache", !.kind = "json",
          !.err = TokErrName(code), !.euri = ErrDoc(w.te.euri, TokErrName(code)), !.eff = effs,
          !.chal = IF code = "invalid_client/401" THEN [@ EXCEPT !.scheme = "basic", !.realm = w.realm] ELSE @]
PredictToken(w, st, cnt, now, rq) ==
  LET r == TokenRes(w, st, now, rq)
      recs == Recs(st, r)
      c == w.clients[r.ci]
  IN IF r.fail # {} THEN TokErr(w, One(CodesOf(r.fail)), recs)
     ELSE CASE r.gt = "authorization_code" ->
                 LET s == st.sess[SessIdx(st, Param(rq, "code"))]
                     i == st.infos[InfoIdx(st, s.auth)]
                     t == NewTok(w, cnt, i.id, i.scope, now, FALSE)
                 IN TokOk(t, i.scope, recs \o <<t, [Eff0 EXCEPT !.op = "disable", !.code = s.code, !.auth = s.auth]>>,
                          IF HasWord(i.scope, "openid") THEN IdTok(c, w, now, i.sub, s.nonce, now + s.idTTL, s.authTime) ELSE IdT0)
            [] r.gt = "refresh_token" ->
                 LET t == st.toks[RTokIdx(st, Param(rq, "refresh_token"))]
                     i == st.infos[InfoIdx(st, t.auth)]
                     n == Str(cnt.tok + 1)
                     e == [Eff0 EXCEPT !.op = "refresh", !.auth = i.id, !.old = t.at, !.at = "AT-" \o n, !.rt = CASE w.tok.rotate = "yes" -> "RT-" \o n [] w.tok.rotate = "drop" -> "" [] OTHER -> t.rt,
                             !.attl = IF w.tok.rattl >= 0 THEN w.tok.rattl ELSE t.attl, !.rttl = t.rttl, !.refreshed = now, !.created = t.created]
                 IN TokOk(e, i.scope, recs \o <<e>>, IdT0)
            [] OTHER ->
                 LET scope == Param(rq, "scope")
                     ni == NewInfo(w, st, cnt, DirectUid(w, rq, c, r.gt), c.id, scope)
                     t == NewTok(w, cnt, ni.auth, ni.granted, now, FALSE)
                 IN TokOk(t, ni.granted, recs \o <<ni, t>>, IdT0)

(* ------------------------------------------------------ resource protector *)
PredictRes(w, st, now, rq) ==
  LET r == ResRes(w, st, now, rq)
      err == One(CodesOf(r.fail))
      i == st.infos[r.info]
  IN IF r.fail = {} THEN [Obs0 EXCEPT !.ret = TRUE, !.huid = Str(i.uid), !.hcid = i.cid, !.hscope = i.scope]
     ELSE [Obs0 EXCEPT !.nw = 1, !.status = ResStatus(err), !.kind = "empty",
             !.chal = [scheme |-> "bearer", realm |-> w.rp.realm, err |-> err, euri |-> ErrDoc(w.rp.euri, err)]]

(* -------------------------------------------------- authorization endpoint *)
Answer(mode, ruri, params, state, effs, idt) ==
  [Obs0 EXCEPT !.nw = 1, !.status = IF mode = "form_post" THEN 200 ELSE 302, !.kind = "resp", !.eff = effs, !.idt = idt,
     !.resp = [via |-> mode, target |-> ruri, safe |-> TRUE, nocache |-> TRUE,
               params |-> SelectSeq(params \o <<[k |-> "state", v |-> state]>>, LAMBDA x : x.v # "")]]
Kv(k, v) == [k |-> k, v |-> v]
Done(w, cnt, now, c, f, q, auth, sub, env, mode, before) ==
  LET code == "CODE-" \o Str(cnt.code + 1)
      want == f.type # "implicit"
      t == NewTok(w, cnt, auth, q.scope, now, TRUE)
      ss == [Eff0 EXCEPT !.op = "session", !.auth = auth, !.code = code, !.ruri = q.ruri, !.verifier = q.verifier, !.nonce = q.nonce, !.ttl = w.pol.codeTTL,
               !.authTime = env.at, !.idTTL = w.tok.idttl, !.created = now]
  IN Answer(mode, q.ruri,
       (IF want THEN <<Kv("code", code)>> ELSE <<>>)
       \o (IF f.tok THEN <<Kv("access_token", t.at), Kv("token_type", "bearer"), Kv("expires_in", Str(t.attl)), Kv("scope", q.scope)>> ELSE <<>>)
       \o (IF f.idt THEN <<Kv("id_token", "(jwt)")>> ELSE <<>>),
       q.state,
       before \o (IF want THEN <<[Eff0 EXCEPT !.op = "code", !.code = code], ss>> ELSE <<>>) \o (IF f.tok THEN <<t>> ELSE <<>>),
       IF f.idt THEN [IdTok(c, w, now, sub, q.nonce, now + w.pol.idTTL, env.at)
                        EXCEPT !.atHash = IF f.tok THEN "ok" ELSE "none", !.cHash = IF want THEN "ok" ELSE "none"] ELSE IdT0)
PredictAuthz(w, st, cnt, now, rq, env) ==
  LET r == AuthzRes(w, st, now, rq, env)
      c == w.clients[r.ci]
      ruri == Param(rq, "redirect_uri") state == Param(rq, "state")
      q == ReqRec(rq, env, r.f, r.mode)
      show(kind, cid) == [Obs0 EXCEPT !.screens = <<[kind |-> kind, typ |-> "", cid |-> cid, req |-> q]>>]
  IN CASE r.k = "screen" -> [Obs0 EXCEPT !.screens = <<[kind |-> "error", typ |-> One(r.typ), cid |-> "", req |-> Req0]>>]
       [] r.k = "error" -> Answer(One(r.modes), ruri, <<Kv("error", One(CodesOf(r.fail)))>>, state, <<>>, IdT0)
       [] r.k = "login" -> show("login", "")
       [] r.k = "consent" -> show("consent", q.cid)
       [] OTHER -> Done(w, cnt, now, c, r.f, q, r.auth, st.infos[InfoIdx(st, r.auth)].sub, env, r.mode, <<>>)
PredictComplete(w, st, cnt, pend, now, rq, env) ==
  IF rq.pend \notin DOMAIN pend THEN [Obs0 EXCEPT !.hit = TRUE]
  ELSE LET p == pend[rq.pend]
           ni == NewInfo(w, st, cnt, env.uid, p.cid, p.scope)
       IN Done(w, cnt, now, w.clients[ClientIdx(w, p.cid)], PendFlow(p), p, ni.auth, ni.sub, env, p.mode, <<ni>>)
PredictCancel(pend, rq) ==
  IF rq.pend \notin DOMAIN pend THEN [Obs0 EXCEPT !.hit = TRUE]
  ELSE Answer(pend[rq.pend].mode, pend[rq.pend].ruri, <<Kv("error", "access_denied")>>, pend[rq.pend].state, <<>>, IdT0)

PredictStep(w, st, cnt, pend, stp) ==
  CASE stp.k = "token" -> PredictToken(w, st, cnt, stp.now, stp.rq)
    [] stp.k = "res" -> PredictRes(w, st, stp.now, stp.rq)
    [] stp.k = "authz" -> PredictAuthz(w, st, cnt, stp.now, stp.rq, stp.env)
    [] stp.k = "complete" -> PredictComplete(w, st, cnt, pend, stp.now, stp.rq, stp.env)
    [] stp.k = "cancel" -> PredictCancel(pend, stp.rq)
    [] OTHER -> Obs0
=============================================================================
