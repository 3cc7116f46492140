-------------------------------- MODULE Check --------------------------------
(* One observed step against the rules: the set of <<property, clause>> the  *)
(* step violates.  The store the step is judged in is the store all previous *)
(* observed effects lead to.                                                 *)
EXTENDS Authz

V(props, clause) == {<<p, clause>> : p \in props}
VIf(b, props, clause) == IF b THEN V(props, clause) ELSE {}
RealProps(s) == s \ {"late"}

Ops(o, op) == SelectSeq(o.eff, LAMBDA e : e.op = op)
Others(o, ops) == SelectSeq(o.eff, LAMBDA e : e.op \notin ops)
AllOk(l) == \A i \in DOMAIN l : l[i].ok

ErrDoc(kind, err) == CASE kind = "fixed" -> "https://err.example/doc"
                       [] kind = "bytype" -> "https://err.example/" \o err
                       [] OTHER -> ""

(* ======================================================== token endpoint *)
TokCode(o) == IF o.status = 405 THEN "405"
              ELSE IF o.kind # "json" THEN "?"
              ELSE IF o.err = "invalid_client" THEN "invalid_client/" \o Str(o.status) ELSE o.err
TokStatus(code) == CASE code = "invalid_client/401" -> 401 [] code = "server_error" -> 500 [] OTHER -> 400
TokErrName(code) == IF Starts(code, "invalid_client") THEN "invalid_client" ELSE code

NoStore(o) == HasSub(o.cc, "no-store") /\ HasSub(o.pragma, "no-cache")

TokFormat(w, o, code) ==
  IF code = "405" THEN VIf(o.at # "" \/ o.rt # "", {"C14"}, "405 carries tokens")
  ELSE VIf(o.status # TokStatus(code), {"C14"}, "status of the error")
       \cup VIf(o.nw # 1, {"C14", "C13"}, "exactly one response")
       \cup VIf(o.ctype # "json", {"C14"}, "JSON content type")
       \cup VIf(~NoStore(o), {"C14"}, "no-store headers")
       \cup VIf(o.euri # ErrDoc(w.te.euri, TokErrName(code)), {"C14"}, "error_uri")
       \cup VIf(code = "invalid_client/401" /\ ~(o.chal.scheme = "basic" /\ o.chal.realm = w.realm), {"C01", "C14"}, "Basic challenge")
       \cup VIf(code = "invalid_client/400" /\ o.chal.scheme # "none", {"C01", "C14"}, "challenge without header credentials")

RecSet(r) == r.carec \cup r.jarec
EffRec(e) == [cid |-> e.cid, jti |-> e.jti, iat |-> e.iat, exp |-> e.exp]
(* replay records: only for authentic, current assertions, exact, once each  *)
CheckRecs(r, o, must) ==
  LET recs == Ops(o, "record")
      got == {EffRec(recs[i]) : i \in DOMAIN recs}
  IN VIf(~(got \subseteq RecSet(r)), {"C10", "C07"}, "replay record of an assertion that is not authentic and current, or altered")
     \cup VIf(Cardinality(got) # Len(recs), {"C10"}, "recorded twice")
     \cup VIf(must /\ ~(RecSet(r) \subseteq got), {"C10"}, "accepted without asking the store for replay")
     \cup VIf(must /\ ~AllOk(recs), {"C10"}, "accepted although the store reported a replay")

CheckIdT(c, w, now, t, sub, nonce, exp, at, props) ==
  VIf(t.key # c.idkey \/ t.alg # c.idalg, props, "ID token signature")
  \cup VIf(t.kid # c.idkid, props, "ID token kid")
  \cup VIf(t.iss # w.issuer, props, "ID token iss")
  \cup VIf(t.aud # c.id, props, "ID token aud")
  \cup VIf(t.sub # sub, props, "ID token sub")
  \cup VIf(t.nonce # nonce, props, "ID token nonce")
  \cup VIf(t.iat # now, props, "ID token iat")
  \cup VIf(t.exp # exp, props, "ID token exp")
  \cup VIf(t.at # at, props, "ID token auth_time")

(* a hash claim: present exactly when `want`; "std" is the recorded finding  *)
CheckHash(h, want, name) ==
  VIf(want /\ h = "none", {"C12"}, name \o " missing")
  \cup VIf(~want /\ h \notin {"none"}, {"C12"}, name \o " without its artefact")
  \cup VIf(want /\ h = "bad", {"C12"}, name \o " does not match")
  \cup VIf(want /\ h = "std", {"K1"}, name)

Success(o) == o.status = 200 /\ o.kind = "json" /\ o.err = ""
HandsOut(o) == o.at # "" \/ o.rt # "" \/ o.idt.has

TokReport(o, tok, scope) ==
  VIf(o.at # tok.at, {"C11"}, "access token is not the one created")
  \cup VIf(o.expin # tok.attl, {"C11"}, "expires_in")
  \cup VIf(o.rt # tok.rt, {"C11"}, "refresh token is not the one the store issued")
  \cup VIf(o.scope # scope, {"C11"}, "scope of the authorization")
  \cup VIf(o.tt \notin {"Bearer", "bearer"}, {"C11"}, "token type")
  \cup VIf(o.ctype # "json" \/ ~NoStore(o) \/ o.nw # 1 \/ o.chal.scheme # "none", {"C11"}, "form of the response")

CheckCodeOk(w, st, now, rq, r, o) ==
  LET c == w.clients[r.ci]
      s == st.sess[SessIdx(st, Param(rq, "code"))]
      i == st.infos[InfoIdx(st, s.auth)]
      tk == Ops(o, "token")
      ds == Ops(o, "disable")
      good == Len(tk) = 1 /\ AllOk(tk)
      oid == HasWord(i.scope, "openid")
  IN VIf(~good, {"C11", "C03"}, "one token per redeemed code")
     \cup VIf(good /\ (good => tk[1].auth # i.id \/ tk[1].front), {"C11", "C03", "C29"}, "token of another authorization")
     \cup VIf(~(Len(ds) = 1 /\ AllOk(ds)) \/ (Len(ds) = 1 => ds[1].code # s.code), {"C04"}, "redeemed code is disabled")
     \cup VIf(Others(o, {"token", "disable", "record"}) # <<>>, {"C11", "C07"}, "nothing else changes")
     \cup (IF good THEN TokReport(o, tk[1], i.scope) ELSE {})
     \cup VIf(oid # o.idt.has, {"C12"}, "ID token iff openid")
     \cup (IF o.idt.has
           THEN CheckIdT(c, w, now, o.idt, i.sub, s.nonce, now + s.idTTL, IF s.authTime < 0 THEN -1 ELSE s.authTime, {"C12"})
                \cup VIf(o.idt.atHash = "bad" \/ o.idt.cHash \notin {"none"}, {"C12"}, "hash claims of the code flow")
           ELSE {})

CheckRefreshOk(w, st, now, rq, r, o) ==
  LET t == st.toks[RTokIdx(st, Param(rq, "refresh_token"))]
      i == st.infos[InfoIdx(st, t.auth)]
      rf == Ops(o, "refresh")
      good == Len(rf) = 1 /\ AllOk(rf)
  IN VIf(~good, {"C08", "C11"}, "exactly one refresh")
     \cup VIf(good /\ (good => rf[1].old # t.at \/ rf[1].auth # i.id), {"C08", "C29"}, "refreshes the presented token")
     \cup VIf(Others(o, {"refresh", "record"}) # <<>>, {"C08", "C07"}, "nothing else changes")
     \cup (IF good THEN TokReport(o, rf[1], i.scope) ELSE {})
     \cup VIf(o.idt.has, {"C12"}, "no ID token on refresh")

CheckDirectOk(w, st, now, rq, r, o) ==
  LET c == w.clients[r.ci]
      uid == DirectUid(w, rq, c, r.gt)
      ni == Ops(o, "info")
      tk == Ops(o, "token")
      gi == Len(ni) = 1 /\ AllOk(ni)
      gt == Len(tk) = 1 /\ AllOk(tk)
  IN VIf(~gi, {"C09"}, "one authorization")
     \cup VIf(gi /\ (gi => ni[1].uid # uid), {"C09", "C29"}, "authorization of another user")
     \cup VIf(gi /\ (gi => ni[1].cid # c.id), {"C01", "C09", "C29"}, "authorization of another client")
     \cup VIf(gi /\ (gi => ni[1].scope # Param(rq, "scope")), {"C09", "C29"}, "authorization of another scope")
     \cup VIf(~gt, {"C09", "C11"}, "one token")
     \cup VIf(gi /\ gt /\ ((gi /\ gt) => tk[1].auth # ni[1].auth \/ tk[1].front), {"C09", "C11"}, "token of another authorization")
     \cup VIf(Others(o, {"info", "token", "record"}) # <<>>, {"C09", "C07"}, "nothing else changes")
     \cup (IF gt THEN TokReport(o, tk[1], IF gi THEN ni[1].granted ELSE Param(rq, "scope")) ELSE {})
     \cup VIf(o.idt.has, {"C12"}, "no ID token on a direct grant")

(* effects a refused request may leave behind                                *)
RefusedEff(w, st, now, rq, r, o, late) ==
  LET non == Others(o, {"record"})
      tk == Ops(o, "token") ni == Ops(o, "info")
      partial ==
        \/ /\ r.gt = "authorization_code"
           /\ Others(o, {"record", "token", "disable"}) = <<>>
           /\ Len(tk) <= 1 /\ Len(Ops(o, "disable")) <= 1
           /\ \A i \in DOMAIN tk : ~tk[i].front /\ tk[i].auth = st.sess[SessIdx(st, Param(rq, "code"))].auth
           /\ \A i \in DOMAIN Ops(o, "disable") : Ops(o, "disable")[i].code = Param(rq, "code")
        \/ /\ r.gt = "refresh_token"
           /\ Others(o, {"record", "refresh"}) = <<>> /\ Len(Ops(o, "refresh")) <= 1
        \/ /\ r.gt \in {"password", "client_credentials", JWTBearer}
           /\ Others(o, {"record", "info", "token"}) = <<>> /\ Len(tk) <= 1 /\ Len(ni) <= 1
           /\ \A i \in DOMAIN ni : ni[i].cid = w.clients[r.ci].id /\ ni[i].scope = Param(rq, "scope")
                                    /\ ni[i].uid = DirectUid(w, rq, w.clients[r.ci], r.gt)
  IN IF non = <<>> THEN TRUE ELSE late /\ r.ci # 0 /\ partial

CheckToken(w, st, stp) ==
  LET rq == stp.rq
      now == stp.now
      o == stp.obs
      r == TokenRes(w, st, now, rq)
      fams == RealProps(FamsOf(r.fail))
      path == PathFams(w, st, rq, r.gt)
      fe == IF o.hit THEN TokenFaultErrs(w, rq, stp.fault.m, stp.fault.kind) ELSE {}
      ff == IF o.hit THEN FaultFams(stp.fault.m) ELSE {}
      code == TokCode(o)
      late == \A x \in r.fail : "late" \in x.f
  IN IF o.panic \/ o.hang THEN V({"C13", "C14"} \cup path \cup fams \cup ff, "crash or hang")
     ELSE IF r.fail = {} /\ ~o.hit
     THEN IF ~Success(o)
          THEN V(path, "a request meeting the conditions is refused")
               \cup VIf(Others(o, {"record"}) # <<>>, {"C07"}, "refused request changes state")
               \cup CheckRecs(r, o, FALSE)
          ELSE CheckRecs(r, o, TRUE)
               \cup CASE r.gt = "authorization_code" -> CheckCodeOk(w, st, now, rq, r, o)
                      [] r.gt = "refresh_token" -> CheckRefreshOk(w, st, now, rq, r, o)
                      [] OTHER -> CheckDirectOk(w, st, now, rq, r, o)
     ELSE IF Success(o) \/ HandsOut(o)
     THEN V(fams \cup ff \cup (IF r.fail # {} THEN {"C14"} ELSE {}), "a request that must be refused is served")
          \cup CheckRecs(r, o, FALSE)
     ELSE VIf(code \notin CodesOf(r.fail) \cup fe, fams \cup ff \cup {"C14"}, "wrong error for the failing condition")
          \cup VIf(o.leak # "", {"C07", "C13"}, "refusal reveals what was issued")
          \cup TokFormat(w, o, IF code \in CodesOf(r.fail) \cup fe THEN code ELSE CHOOSE x \in CodesOf(r.fail) \cup fe : TRUE)
          \cup CheckRecs(r, o, FALSE)
          \cup VIf(~RefusedEff(w, st, now, rq, r, o, late),
                   {"C07"} \cup fams \cup (IF Ops(o, "disable") # <<>> THEN {"C04"} ELSE {}), "refused request changes state")

(* ==================================================== resource protector *)
CheckRes(w, st, stp) ==
  LET rq == stp.rq
      o == stp.obs
      r == ResRes(w, st, stp.now, rq)
      fams == FamsOf(r.fail)
      path == {"C25", "C26", "C27"}
      codes == CodesOf(r.fail)
      fe == IF ~o.hit THEN {} ELSE IF stp.fault.kind = "failed" THEN {"invalid_token", "server_error"} ELSE {"server_error"}
      err == IF o.chal.scheme = "bearer" THEN o.chal.err ELSE IF o.status >= 500 THEN "server_error" ELSE "?"
      i == st.infos[r.info]
  IN VIf(o.eff # <<>> \/ o.screens # <<>>, {"C25"}, "the protector changes state")
     \cup
     IF o.panic \/ o.hang THEN V(path \cup {"C13"}, "crash or hang")
     ELSE IF r.fail = {} /\ ~o.hit
     THEN IF ~o.ret THEN V(path \cup {"C29"}, "a live token is refused")
          ELSE VIf(o.nw # 0 \/ o.kind # "none", {"C25"}, "something is written for an admitted request")
               \cup VIf(o.huid # Str(i.uid), {"C25", "C29"}, "user id header")
               \cup VIf(o.hcid # i.cid, {"C25", "C29"}, "client id header")
               \cup VIf(o.hscope # i.scope, {"C25", "C29"}, "scope header")
     ELSE IF o.ret THEN V(fams \cup (IF o.hit THEN {"C13", "C25"} ELSE {}), "a request that must be refused is admitted")
     ELSE VIf(err \notin codes \cup fe, fams \cup {"C14"} \cup (IF o.hit THEN {"C13"} ELSE {}), "wrong error for the failing condition")
          \cup VIf(o.nw # 1, {"C14", "C13"}, "exactly one response")
          \cup VIf(err \in codes /\ o.status # ResStatus(err), {"C14"} \cup fams, "status of the error")
          \cup VIf(err \in codes /\ o.chal.realm # w.rp.realm, {"C14"}, "realm")
          \cup VIf(err \in codes /\ o.chal.euri # ErrDoc(w.rp.euri, err), {"C14"}, "error_uri")

(* ================================================ authorization endpoint *)
PV(o, k) == LET l == SelectSeq(o.resp.params, LAMBDA x : x.k = k)
            IN IF Len(l) = 0 THEN "" ELSE IF Len(l) = 1 THEN l[1].v ELSE "?many"
Silent(o) == o.nw = 0 /\ o.kind = "none"
Gives(o) == PV(o, "code") # "" \/ PV(o, "access_token") # "" \/ o.idt.has

(* what every response to the client satisfies                               *)
RespForm(o, modes, target, state) ==
  VIf(o.nw # 1, {"C13", "C15"}, "exactly one response")
  \cup VIf(o.resp.via \notin modes, {"C16"}, "response mode")
  \cup VIf(o.resp.target # target, {"C15"} \cup (IF o.resp.via = "form_post" THEN {"C16"} ELSE {}), "sent to the redirect_uri")
  \cup VIf(~o.resp.safe, {"C16"}, "page structure")
  \cup VIf(o.resp.via = "form_post" /\ ~o.resp.nocache, {"C16"}, "form page is cacheable")
  \cup VIf(PV(o, "state") # state, {"C17"} \cup (IF PV(o, "state") = "" THEN {} ELSE {"C16"}), "state echoed")
  \cup VIf(o.screens # <<>>, {"C13", "C22"}, "a screen and a response")

(* completion of request `q` (a request record) for authorization `auth`     *)
CheckDone(w, st, now, c, f, q, auth, sub, env, mode, o, extra) ==
  LET cd == Ops(o, "code") ss == Ops(o, "session") tk == Ops(o, "token")
      wantCode == f.type # "implicit"
      gc == Len(cd) = 1 /\ Len(ss) = 1 /\ AllOk(ss)
      gt == Len(tk) = 1 /\ AllOk(tk)
  IN RespForm(o, {mode}, q.ruri, q.state)
     \cup VIf(PV(o, "error") # "", {"C18"} \cup extra, "error instead of success")
     \cup VIf(wantCode # gc \/ (~wantCode /\ cd \o ss # <<>>), {"C18", "C24"}, "code created iff asked for")
     \cup (IF wantCode /\ gc
           THEN VIf(PV(o, "code") # cd[1].code \/ ss[1].code # cd[1].code, {"C18", "C24"}, "code is the one created")
                \cup VIf(ss[1].auth # auth, {"C24", "C29", "C20", "C22"}, "session of another authorization")
                \cup VIf(ss[1].ruri # q.ruri, {"C24", "C03"}, "session redirect_uri")
                \cup VIf(ss[1].verifier # q.verifier, {"C24", "C06"}, "session verifier")
                \cup VIf(ss[1].nonce # q.nonce, {"C24", "C12"}, "session nonce")
                \cup VIf(ss[1].ttl # w.pol.codeTTL, {"C24", "C05"}, "session lifetime")
                \cup VIf(ss[1].authTime # env.at, {"C24", "C12"}, "session auth time")
           ELSE VIf(~wantCode /\ PV(o, "code") # "", {"C18"}, "code not asked for"))
     \cup VIf(f.tok # gt \/ (~f.tok /\ tk # <<>>), {"C18"}, "access token created iff asked for")
     \cup (IF f.tok /\ gt
           THEN VIf(PV(o, "access_token") # tk[1].at, {"C18"}, "access token is the one created")
                \cup VIf(tk[1].auth # auth, {"C18", "C24", "C29"}, "token of another authorization")
                \cup VIf(~tk[1].front, {"C18"}, "front-channel token")
                \cup VIf(PV(o, "token_type") \notin {"bearer", "Bearer"}, {"C18"}, "token_type")
                \cup VIf(PV(o, "expires_in") # Str(tk[1].attl), {"C18"}, "expires_in")
                \cup VIf(PV(o, "scope") # q.scope, {"C18"}, "scope")
           ELSE VIf(~f.tok /\ (PV(o, "access_token") \o PV(o, "token_type") \o PV(o, "expires_in")) # "", {"C18"}, "token not asked for")
                \cup VIf(PV(o, "scope") \notin {"", q.scope}, {"C18"}, "scope"))
     \cup VIf(PV(o, "refresh_token") # "", {"C18"}, "refresh token on the front channel")
     \cup VIf(f.idt # o.idt.has, {"C18", "C12"}, "ID token iff asked for")
     \cup (IF f.idt /\ o.idt.has
           THEN CheckIdT(c, w, now, o.idt, sub, q.nonce, now + w.pol.idTTL, IF env.at < 0 THEN -1 ELSE env.at, {"C12"})
                \cup CheckHash(o.idt.atHash, f.tok, "at_hash")
                \cup CheckHash(o.idt.cHash, f.type = "hybrid", "c_hash")
           ELSE {})
     \cup VIf(Others(o, {"code", "session", "token", "info"}) # <<>>, {"C18", "C24"}, "nothing else changes")

PartialDone(o) == \* what a completion may have done when the store fails half-way
  Others(o, {"code", "session", "token", "info"}) = <<>>

CheckErr(o, modes, target, state, codes, props) ==
  RespForm(o, modes, target, state)
  \cup VIf(PV(o, "error") \notin codes, props, "wrong error")
  \cup VIf(Gives(o), props \cup {"C18", "C13"}, "artefact in an error response")

CheckAuthz(w, st, stp) ==
  LET rq == stp.rq env == stp.env now == stp.now o == stp.obs
      r == AuthzRes(w, st, now, rq, env)
      fams == FamsOf(r.fail)
      c == w.clients[r.ci]
      ruri == Param(rq, "redirect_uri") state == Param(rq, "state")
      q == ReqRec(rq, env, r.f, r.mode)
      m == stp.fault.m
      none == HasWord(PromptOf(rq), "none")
      inter == {"C20", "C21", "C22"}
      nothing == VIf(o.eff # <<>>, {"C24", "C19", "C20", "C21"} \cup fams, "something is created")
      stageP == {"C15", "C16", "C18", "C19", "C23"} \cup inter
      screen(kind, props) ==
        VIf(~Silent(o), props \cup {"C15", "C17", "C18", "C19", "C23"}, "a response instead of a screen")
        \cup VIf(Len(o.screens) # 1, props, "exactly one screen")
        \cup VIf(Len(o.screens) = 1 /\ (Len(o.screens) = 1 => o.screens[1].kind # kind), props \cup inter, "the wrong screen")
        \cup VIf(Len(o.screens) = 1 /\ (Len(o.screens) = 1 => o.screens[1].kind \in {"login", "consent"} /\ o.screens[1].req # q),
                 {"C24"} \cup (IF o.screens[1].req.state # q.state THEN {"C17"} ELSE {})
                         \cup (IF o.screens[1].req.mode # q.mode THEN {"C16"} ELSE {})
                         \cup (IF o.screens[1].req.ruri # q.ruri THEN {"C15"} ELSE {})
                         \cup (IF o.screens[1].req.scope # q.scope THEN {"C23"} ELSE {}), "the request shown is not the client's")
        \cup VIf(Len(o.screens) = 1 /\ kind = "consent" /\ (Len(o.screens) = 1 => o.screens[1].kind = "consent" /\ o.screens[1].cid # q.cid), {"C24"}, "another client shown")
        \cup nothing
  IN IF o.panic \/ o.hang THEN V({"C13"} \cup fams \cup inter \cup {"C15", "C18"}, "crash or hang")
     ELSE IF r.k = "screen" \/ (o.hit /\ m = "FindClientById" /\ Len(o.screens) = 1)
     THEN VIf(~Silent(o), {"C15", "C13"}, "sent without a registered redirect_uri")
          \cup VIf(Len(o.screens) # 1, {"C15", "C13"}, "exactly one error screen")
          \cup VIf(Len(o.screens) = 1 /\ (Len(o.screens) = 1 =>
                     \/ o.screens[1].kind # "error"
                     \/ o.screens[1].typ \notin r.typ \cup (IF ~o.hit THEN {} ELSE IF stp.fault.kind = "failed" THEN {"client_id"} ELSE {"server_error"})),
                   {"C15"} \cup (IF o.hit THEN {"C13"} ELSE {}), "reason of the error screen")
          \cup VIf(o.eff # <<>>, {"C15"}, "something is created")
          \cup VIf(o.ret, {"C15"}, "reported as shown")
     ELSE IF o.hit
     THEN \* a failing callback or store operation
          LET noinfo == m = "FindAuthInfoByUserIdAndClientId" /\ stp.fault.kind = "failed"
              codes == (IF noinfo THEN {} ELSE {"server_error"}) \cup CodesOf(r.fail) \cup (IF noinfo /\ none THEN {"consent_required"} ELSE {})
              toConsent == noinfo /\ ~none
          IN IF toConsent THEN screen("consent", {"C13", "C21"})
             ELSE CheckErr(o, r.modes, ruri, state, codes, {"C13"} \cup fams)
                  \cup VIf(~PartialDone(o) \/ (r.k # "done" /\ o.eff # <<>>), {"C13", "C24"}, "something is created")
     ELSE IF r.k = "error"
     THEN IF o.screens # <<>> /\ Silent(o)
          THEN V(fams \cup {"C14"}, "a screen instead of an error") \cup nothing
          ELSE CheckErr(o, r.modes, ruri, state, CodesOf(r.fail), fams) \cup nothing
     ELSE IF r.k = "login" THEN screen("login", {"C20"} \cup (IF Silent(o) THEN {} ELSE IF PV(o, "error") # "" THEN stageP ELSE inter))
     ELSE IF r.k = "consent" THEN screen("consent", {"C21"} \cup (IF Silent(o) THEN {} ELSE IF PV(o, "error") # "" THEN stageP ELSE inter))
     ELSE IF o.screens # <<>> /\ Silent(o)
     THEN V({"C21", "C20"} \cup (IF none THEN {"C22"} ELSE {}), "a screen although nothing is needed") \cup nothing
     ELSE IF r.late
     THEN CheckErr(o, r.modes, ruri, state, {"server_error"}, {"C12", "C13"})
     ELSE CheckDone(w, st, now, c, r.f, q, r.auth, st.infos[InfoIdx(st, r.auth)].sub, env, r.mode, o, stageP)
          \cup VIf(Ops(o, "info") # <<>>, {"C24", "C21"}, "authorization changed without consent")

(* a scope that names a word twice may or may not be taken for the same set   *)
CheckAuthzEither(w, st, stp) ==
  LET strict == CheckAuthz(w, st, stp)
      rq == stp.rq
      rt == Param(rq, "response_type")
      ii == InfoOf(st, stp.env.uid, Param(rq, "client_id"))
      sc == Granted(rq, FlowOf(rt))
  IN IF strict = {} \/ ii = 0 \/ ~ValidRT(rt) THEN strict
     ELSE IF WordSet(sc) # WordSet(st.infos[ii].scope) \/ SameWords(sc, st.infos[ii].scope) THEN strict
     ELSE IF CheckAuthz(w, [st EXCEPT !.infos[ii].scope = sc], stp) = {} THEN {} ELSE strict

CheckComplete(w, st, pend, stp) ==
  LET rq == stp.rq env == stp.env now == stp.now o == stp.obs
      known == rq.pend \in DOMAIN pend
      p == pend[rq.pend]
      f == PendFlow(p)
      ci == ClientIdx(w, p.cid)
      gone == ci = 0
      c == w.clients[IF gone THEN 1 ELSE ci]
      ni == Ops(o, "info")
      gi == Len(ni) = 1 /\ AllOk(ni)
  IN IF o.panic \/ o.hang THEN V({"C13", "C24", "C18"}, "crash or hang")
     ELSE IF ~known \/ (o.hit /\ stp.fault.m = "Continue")
     THEN VIf(~Silent(o) \/ o.screens # <<>> \/ o.eff # <<>>, {"C13", "C15", "C24"}, "acts without a pending request")
     \* the client is no more: nothing that can be used is issued (the one thing that need not be noticed is a code, which cannot be)
     ELSE IF gone /\ f.type = "code" /\ PV(o, "error") = "" THEN RespForm(o, {p.mode}, p.ruri, p.state) \cup VIf(~gi, {"C24"}, "approval creates the authorization")
     ELSE IF o.hit \/ gone \/ (f.idt /\ ~KeyFits(c.idalg, c.idkey))
     THEN CheckErr(o, {p.mode}, p.ruri, p.state, {"server_error"}, {"C13"})
          \cup VIf(~PartialDone(o), {"C13", "C24"}, "something else is created")
          \cup VIf(gi /\ (gi => ni[1].uid # env.uid \/ ni[1].cid # p.cid \/ ni[1].scope # p.scope), {"C24"}, "another authorization")
     ELSE VIf(~gi, {"C24", "C21"}, "approval creates the authorization")
          \cup VIf(gi /\ (gi => ni[1].uid # env.uid), {"C24", "C29"}, "authorization of another user")
          \cup VIf(gi /\ (gi => ni[1].cid # p.cid), {"C24", "C29"}, "authorization of another client")
          \cup VIf(gi /\ (gi => ni[1].scope # p.scope), {"C24", "C29", "C23"}, "authorization of another scope")
          \cup (IF gi THEN CheckDone(w, st, now, c, f, p, ni[1].auth, ni[1].sub, env, p.mode, o, {"C24", "C29"}) ELSE {})

CheckCancel(w, st, pend, stp) ==
  LET rq == stp.rq o == stp.obs
      known == rq.pend \in DOMAIN pend
      p == pend[rq.pend]
  IN IF o.panic \/ o.hang THEN V({"C13", "C24"}, "crash or hang")
     ELSE IF ~known \/ (o.hit /\ stp.fault.m = "Continue")
     THEN VIf(~Silent(o) \/ o.screens # <<>> \/ o.eff # <<>>, {"C13", "C15", "C24"}, "acts without a pending request")
     ELSE CheckErr(o, {p.mode}, p.ruri, p.state, {"access_denied"}, {"C24"})
          \cup VIf(o.eff # <<>>, {"C24"}, "cancellation creates something")

(* ====================================================== effects on the store *)
ApplyEff(st, now, e) ==
  IF ~e.ok THEN st
  ELSE CASE e.op = "token" ->
            [st EXCEPT !.toks = Append(@, [at |-> e.at, rt |-> e.rt, auth |-> e.auth, attl |-> e.attl, refreshed |-> e.refreshed,
                                           rttl |-> e.rttl, created |-> e.created, front |-> e.front])]
         [] e.op = "refresh" ->
            [st EXCEPT !.toks = [i \in DOMAIN @ |-> IF @[i].at = e.old
              THEN [@[i] EXCEPT !.at = e.at, !.rt = e.rt, !.refreshed = e.refreshed, !.attl = e.attl, !.rttl = e.rttl] ELSE @[i]]]
         [] e.op = "info" ->
            LET ii == InfoOf(st, e.uid, e.cid)
            IN IF ii # 0 THEN [st EXCEPT !.infos[ii].scope = e.granted, !.infos[ii].at = now, !.infos[ii].active = TRUE]
               ELSE [st EXCEPT !.infos = Append(@, [id |-> e.auth, uid |-> e.uid, cid |-> e.cid, sub |-> e.sub,
                                                    scope |-> e.granted, at |-> now, active |-> TRUE])]
         [] e.op = "session" ->
            [st EXCEPT !.sess = Append(@, [code |-> e.code, auth |-> e.auth, ruri |-> e.ruri, verifier |-> e.verifier, nonce |-> e.nonce,
                                           ttl |-> e.ttl, authTime |-> e.authTime, idTTL |-> e.idTTL, created |-> e.created, on |-> TRUE])]
         [] e.op = "disable" -> [st EXCEPT !.sess = [i \in DOMAIN @ |-> IF @[i].code = e.code THEN [@[i] EXCEPT !.on = FALSE] ELSE @[i]]]
         [] e.op = "record" -> IF e.jti = "" THEN st ELSE [st EXCEPT !.jtis = Append(@, [cid |-> e.cid, jti |-> e.jti])]
         [] OTHER -> st
RECURSIVE ApplyAll(_, _, _, _)
ApplyAll(st, now, l, i) == IF i > Len(l) THEN st ELSE ApplyAll(ApplyEff(st, now, l[i]), now, l, i + 1)

Shown(o) == [i \in 1..Len(SelectSeq(o.screens, LAMBDA x : x.kind # "error")) |->
             SelectSeq(o.screens, LAMBDA x : x.kind # "error")[i].req]

NextStore(st, stp) ==
  IF stp.k = "revoke"
  THEN [st EXCEPT !.infos = [i \in DOMAIN @ |-> IF @[i].id = stp.rq.auth_ THEN [@[i] EXCEPT !.active = FALSE] ELSE @[i]]]
  ELSE ApplyAll(st, stp.now, stp.obs.eff, 1)

CheckStep(w, st, pend, stp) ==
  \* whatever a request needs it gets through the interface and the callbacks it was given
  VIf(stp.obs.alien, {"C28", "C29"}, "served through what another request was given")
  \cup
  CASE stp.k = "token" -> CheckToken(w, st, stp)
    [] stp.k = "res" -> CheckRes(w, st, stp)
    [] stp.k = "authz" -> CheckAuthzEither(w, st, stp)
    [] stp.k = "complete" -> CheckComplete(w, st, pend, stp)
    [] stp.k = "cancel" -> CheckCancel(w, st, pend, stp)
    [] OTHER -> {}
=============================================================================
