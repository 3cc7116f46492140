-------------------------------- MODULE Authz --------------------------------
(* The authorization endpoint: validation, interaction, completion.          *)
EXTENDS Resource

Modes == {"query", "fragment", "form_post"}
Level(m) == CASE m = "query" -> 0 [] m = "fragment" -> 1 [] m = "form_post" -> 2 [] OTHER -> -1
Displays == {"page", "popup", "touch", "wap"}
Prompts == {"none", "login", "consent", "select_account"}

(* response_type: a set of words out of code, id_token, token, in any order  *)
ValidRT(rt) == LET ws == Words(rt) IN
  /\ Range(ws) \subseteq {"code", "id_token", "token"}
  /\ Len(ws) = Cardinality(Range(ws))
FlowOf(rt) == LET ws == WordSet(rt) IN
  [type |-> IF ws = {"code"} THEN "code" ELSE IF "code" \in ws THEN "hybrid" ELSE "implicit",
   idt |-> "id_token" \in ws, tok |-> "token" \in ws]
RTName(f) == f.type \o (IF f.idt THEN "+id_token" ELSE "") \o (IF f.tok THEN "+token" ELSE "")

(* stage 0: is there anybody to answer to?                                   *)
Screens0(w, rq) ==
  LET cid == Param(rq, "client_id") ruri == Param(rq, "redirect_uri") ci == ClientIdx(w, cid)
  IN If1(cid = "", "client_id") \cup If1(ruri = "", "redirect_uri")
     \cup If1(cid # "" /\ ci = 0, "client_id")
     \cup If1(ci # 0 /\ ruri # "" /\ (ci # 0 => ruri \notin Range(w.clients[ci].ruris)), "invalid_redirect_uri")

(* stage 1: the response mode                                                *)
DefaultMode(w, f) == IF f.type = "code" THEN w.pol.codeMode ELSE w.pol.implMode
ModeOf(w, rq, f) ==
  LET r == Param(rq, "response_mode")
      d == DefaultMode(w, f)
      bad == \/ r # "" /\ r \notin Modes
             \/ w.pol.secMode /\ (IF r \in Modes THEN Level(r) < Level(d) ELSE FALSE)
  IN IF r = "" THEN [mode |-> d, fail |-> {}]
     ELSE IF ~bad THEN [mode |-> r, fail |-> {}]
     ELSE [mode |-> d, fail |-> If1(~w.pol.ignoreMode, F("invalid_request", {"C16"}))]

(* stage 2: the parameters                                                   *)
GoodPrompt(p) == LET ws == WordSet(p) IN ws \subseteq Prompts /\ ("none" \in ws => ws = {"none"})
PromptOf(rq) == Param(rq, "prompt")
Granted(rq, f) ==
  LET s == Param(rq, "scope")
  IN IF HasWord(s, "offline_access") /\ (f.type = "implicit" \/ ~HasWord(PromptOf(rq), "consent"))
     THEN Without(s, "offline_access") ELSE s
FlowScopes(c, f) == CASE f.type = "code" -> c.scopes.code [] f.type = "implicit" -> c.scopes.implicit
                      [] OTHER -> c.scopes.hybrid
ParamFail(w, rq, c, f) ==
  LET d == Param(rq, "display")
      m == Param(rq, "max_age")
      p == PromptOf(rq)
      s == Granted(rq, f)
      n == Param(rq, "nonce")
      v == Param(rq, "code_verifier")
  IN If1(f.type \notin Range(c.flows), F("unauthorized_client", {"C18"}))
     \cup If1(d # "" /\ d \notin Displays, F("invalid_request", {"C19"}))
     \cup If1(m # "" /\ (~IsInt(m) \/ (IsInt(m) /\ (IntVal(m) < w.pol.minMaxAge \/ IntVal(m) > w.pol.maxMaxAge))),
              F("invalid_request", {"C19"}))
     \cup If1(p # "" /\ ~GoodPrompt(p), F("invalid_request", {"C19", "C22"}))
     \cup If1(HasWord(s, "offline_access") /\ ~w.pol.emptyScope
              /\ Without(Without(s, "openid"), "offline_access") = "", F("invalid_request", {"C23"}))
     \cup If1(s = "" /\ ~w.pol.emptyScope, F("invalid_request", {"C23"}))
     \cup If1(f.idt /\ ~HasWord(s, "openid"), F("invalid_request", {"C23"}))
     \cup If1(~CanScope(FlowScopes(c, f), s), F("invalid_scope", {"C23"}))
     \cup If1(f.idt /\ n = "", F("invalid_request", {"C19"}))
     \cup If1(Len(n) > w.pol.maxNonce, F("invalid_request", {"C19"}))
     \cup If1(Len(v) > w.pol.maxVerifier, F("invalid_request", {"C19"}))

(* the request shown on the screens                                          *)
ReqRec(rq, env, f, mode) ==
  [cid |-> Param(rq, "client_id"), rt |-> RTName(f), scope |-> Granted(rq, f), ruri |-> Param(rq, "redirect_uri"),
   mode |-> mode, state |-> Param(rq, "state"), verifier |-> Param(rq, "code_verifier"), nonce |-> Param(rq, "nonce"),
   display |-> IF Param(rq, "display") = "" THEN "page" ELSE Param(rq, "display"), prompt |-> PromptOf(rq),
   maxAge |-> IF Param(rq, "max_age") = "" THEN 0 ELSE LET m == IntVal(Param(rq, "max_age")) IN IF m > 2147480000 THEN 2147480000 ELSE m,
   locale |-> IF Param(rq, "ui_locales") = "" THEN env.locale ELSE env.locale \o ":" \o Param(rq, "ui_locales"),
   idHint |-> Param(rq, "id_token_hint"), lgHint |-> Param(rq, "login_hint")]

(* stage 3: interaction                                                      *)
Covered(w, st, now, uid, cid, scope) ==
  LET ii == InfoOf(st, uid, cid)
  IN ii # 0 /\ (ii # 0 => LET i == st.infos[ii] IN
       i.active /\ SameWords(i.scope, scope) /\ i.at + w.pol.omission > now)
TooOld(rq, env, now) == Param(rq, "max_age") # "" /\ (Param(rq, "max_age") # "" => now - env.at > IntVal(Param(rq, "max_age")))

HintFail(w, rq, c, env, now) ==
  LET h == rq.hint
  IN IF Param(rq, "id_token_hint") = "" THEN {F("invalid_request", {"C22"})}
     ELSE IF Param(rq, "id_token_hint") # "$hint" \/ ~WellFormed(h) \/ ~SignedBy(h, c.idkey)
             \/ (HasClaim(h, "exp") /\ (IsNum(h, "exp") => NumVal(h, "exp") < now))
             \/ ~IsNum(h, "exp") \/ ~IsStr(h, "sub")
             \/ (IsNum(h, "nbf") /\ (IsNum(h, "nbf") => NumVal(h, "nbf") > now))
             \/ (IsNum(h, "iat") /\ (IsNum(h, "iat") => NumVal(h, "iat") > now))
          THEN {F("invalid_request", {"C22"})}
     ELSE If1(ClaimStr(h, "sub") \notin Range(env.subs), F("invalid_request", {"C22"}))

NoneFail(w, st, now, rq, c, env, scope) ==
  LET hint == CASE c.none = "loginhint" ->
                     If1(Param(rq, "login_hint") = "" \/ Param(rq, "login_hint") \notin Range(env.subs), F("invalid_request", {"C22"}))
                [] c.none = "idhint" -> HintFail(w, rq, c, env, now)
                [] OTHER -> {}
  IN If1(c.none = "forbidden", F("interaction_required", {"C22"}))
     \cup If1(~env.login, F("login_required", {"C20", "C22"}))
     \cup hint
     \cup If1(~Covered(w, st, now, env.uid, c.id, scope), F("consent_required", {"C21", "C22"}))
     \cup If1(TooOld(rq, env, now), F("login_required", {"C20"}))

NeedLogin(rq, env, now) ==
  ~env.login \/ (HasWord(PromptOf(rq), "login") /\ ~env.fromLogin) \/ TooOld(rq, env, now)
NeedConsent(w, st, now, rq, c, env, scope) ==
  HasWord(PromptOf(rq), "consent") \/ c.noconsent = "force" \/ ~Covered(w, st, now, env.uid, c.id, scope)

(* what a request leads to: k is one of                                      *)
(*   screen  - the error screen, one of `typ`                                *)
(*   error   - one of the errors `fail`, sent by `mode` (any of `modes`)     *)
(*   login, consent - that screen, shown the request `req`                   *)
(*   done    - completed for the authorization `auth`                        *)
NoFlow == [type |-> "none", idt |-> FALSE, tok |-> FALSE]
AuthzRes(w, st, now, rq, env) ==
  LET s0 == Screens0(w, rq)
      rt == Param(rq, "response_type")
      rmode == Param(rq, "response_mode")
      base == [k |-> "screen", typ |-> s0, fail |-> {}, modes |-> {}, mode |-> "", f |-> NoFlow, ci |-> 0, auth |-> 0, scope |-> "", late |-> FALSE]
  IN IF s0 # {} THEN base
     ELSE IF ~ValidRT(rt)
     THEN [base EXCEPT !.k = "error", !.fail = {F("invalid_request", {"C18"})},
                       !.modes = IF rmode \in Modes THEN {rmode} ELSE Modes]
     ELSE LET f == FlowOf(rt)
              ci == ClientIdx(w, Param(rq, "client_id"))
              c == w.clients[ci]
              m == ModeOf(w, rq, f)
              pf == m.fail \cup ParamFail(w, rq, c, f)
              b2 == [base EXCEPT !.f = f, !.ci = ci, !.mode = m.mode, !.modes = {m.mode}, !.scope = Granted(rq, f)]
              none == HasWord(PromptOf(rq), "none")
              nf == NoneFail(w, st, now, rq, c, env, Granted(rq, f))
              late == f.idt /\ ~KeyFits(c.idalg, c.idkey)
          IN IF pf # {} THEN [b2 EXCEPT !.k = "error", !.fail = pf]
             ELSE IF none /\ nf # {} THEN [b2 EXCEPT !.k = "error", !.fail = nf]
             ELSE IF ~none /\ NeedLogin(rq, env, now) THEN [b2 EXCEPT !.k = "login"]
             ELSE IF ~none /\ NeedConsent(w, st, now, rq, c, env, Granted(rq, f)) THEN [b2 EXCEPT !.k = "consent"]
             ELSE [b2 EXCEPT !.k = "done", !.auth = st.infos[InfoOf(st, env.uid, c.id)].id, !.late = late]

PendFlow(p) ==
  CASE p.rt = "code" -> FlowOf("code")
    [] p.rt = "implicit+id_token" -> FlowOf("id_token")
    [] p.rt = "implicit+token" -> FlowOf("token")
    [] p.rt = "implicit+id_token+token" -> FlowOf("id_token token")
    [] p.rt = "hybrid+id_token" -> FlowOf("code id_token")
    [] p.rt = "hybrid+token" -> FlowOf("code token")
    [] OTHER -> FlowOf("code id_token token")
=============================================================================
