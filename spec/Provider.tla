------------------------------- MODULE Provider -------------------------------
(* The whole provider as one state machine: users who log in, approve and    *)
(* cancel, clients who redeem codes, refresh, use the direct grants and the  *)
(* resource, authorizations being revoked and time passing, in any order.    *)
(* Checked here: the rules of one step (CheckStep) imply the guarantees about*)
(* whole histories (CheckLedger, and the invariants below).  Its behaviours  *)
(* are run against the code by the harness and validated by Trace.           *)
EXTENDS Predict, GenAuthz, Json, IOUtils

Num(n) == IF n \in DOMAIN IOEnv THEN IntVal(IOEnv[n]) ELSE 0
Profile == IOEnv.PROFILE
Depth == Num("DEPTH")
Every == Num("EVERY")
All == Profile = "all"
Pick(p, small, large) == IF All THEN large ELSE IF Profile = p THEN small ELSE {}

WA == [World0 EXCEPT !.tok.attl = 100, !.tok.rttl = 150, !.pol.omission = 80,
         !.te.assertion = TRUE, !.te.secret = "post", !.rp.from = "all"]
WB == [WA EXCEPT !.tok.rotate = "no", !.pol.codeMode = "form_post", !.pol.implMode = "form_post",
         !.clients[1].noconsent = "force", !.clients[2].none = "forbidden", !.pol.omission = 1000]
WC == [WA EXCEPT !.clients[1].grants = <<"authorization_code", "password">>, !.clients[2].grants = <<"refresh_token", JWTB, "authorization_code">>,
         !.clients[1].flows = <<"code">>, !.clients[2].flows = <<"hybrid">>, !.clients[2].idalg = "RS256", !.clients[2].idkey = "rsa2"]
WD == [WA EXCEPT !.tok.rtpol = "always", !.tok.rotate = "drop", !.tok.rattl = 40, !.clients[1].idalg = "ES256", !.clients[1].idkey = "ec1", !.te.secret = "all"]
WorldSet == IF All THEN {WA, WB, WC, WD} ELSE {WA}

VARIABLES w, st, pend, led, cnt, now, used, hist, bad
vars == <<w, st, pend, led, cnt, now, used, hist, bad>>
Empty == [infos |-> <<>>, sess |-> <<>>, toks |-> <<>>, jtis |-> <<>>]
Init == /\ w \in WorldSet
        /\ st = Empty /\ pend = <<>> /\ led = NoLedger /\ cnt = Cnt0 /\ now = T0 /\ used = [c |-> <<>>]
        /\ hist = <<>> /\ bad = {}

Do(stp0) ==
  LET stp == [stp0 EXCEPT !.now = now]
      o == PredictStep(w, st, cnt, pend, stp)
      full == [k |-> stp.k, now |-> stp.now, env |-> stp.env, rq |-> stp.rq, fault |-> stp.fault, obs |-> o]
  IN /\ Len(hist) < Depth
     /\ bad' = CheckStep(w, st, pend, full) \cup CheckLedger(w, led, full)
     /\ st' = NextStore(st, full)
     /\ pend' = pend \o Shown(o)
     /\ led' = NextLedger(w, led, st, pend, full)
     /\ cnt' = Bump(st, cnt, o)
     /\ hist' = Append(hist, stp)
     \* how often each code was redeemed and each assertion accepted
     /\ used' = [used EXCEPT !.c = IF stp.k = "token" /\ Success(o) THEN Append(@, IF Param(stp.rq, "grant_type") = "authorization_code" THEN Param(stp.rq, "code") ELSE "") ELSE @]
     /\ UNCHANGED <<w, now>>

(* in simulation one alternative is drawn, so that every kind of step gets   *)
(* its turn; exhaustively all of them are taken                              *)
Draws(S) == IF All /\ now >= 0 /\ S # {} THEN {RandomElement(S)} ELSE S

(* ------------------------------------------------------------------ actors *)
Ruri(c) == IF c = "c1" THEN "https://c1.example/cb" ELSE "https://c2.example/cb"
Users == {11, 12}
Clients == {"c1", "c2"}
AuthHdr(c) == IF c = "c1" THEN Hdr("basic", "c1", "s1") ELSE Hdr("basic", "c2", "s2")
AskFor(u, c, rt, scope, prompt, login, extra) ==
  [Step0 EXCEPT !.k = "authz",
     !.env = [Env0 EXCEPT !.login = login, !.uid = IF login THEN u ELSE -1, !.at = now - 20, !.subs = <<"sub-" \o Str(u)>>],
     !.rq = [Rq0 EXCEPT !.m = "GET", !.q = Ps(<<<<"client_id", c>>, <<"redirect_uri", Ruri(c)>>, <<"response_type", rt>>, <<"scope", scope>>,
        <<"state", "st-" \o Str(cnt.code + Len(pend))>>, <<"nonce", "n-" \o Str(cnt.code + Len(pend))>>, <<"prompt", prompt>>>> \o extra)]]
Authorize ==
  \E u \in Draws(IF All THEN Users ELSE {11}), c \in Draws(IF All THEN Clients ELSE {"c1"}),
     rt \in Draws(IF All THEN {"code", "token", "id_token", "code id_token token", "code token"} ELSE IF Profile = "front" THEN {"token", "code id_token token"}
            ELSE IF Profile = "code" THEN {"code"} ELSE {}),
     s \in Draws(IF All THEN {"openid profile", "profile", "openid offline_access profile", "openid"} ELSE IF Profile = "code" THEN {"openid profile offline_access"} ELSE {"openid profile"}),
     p \in Draws(IF All THEN {"-", "consent", "none", "login", "- "} ELSE IF Profile = "code" THEN {"-", "consent"} ELSE {"-", "none"}) :
     Do(AskFor(u, c, rt, s, IF p = "- " THEN "-" ELSE p, TRUE, <<>>))
AskOffline == \E u \in Draws(Users), c \in Draws(Clients) : Do(AskFor(u, c, "code", "openid profile offline_access", "consent", TRUE, <<>>))
AuthorizeOdd == \E k \in Draws(1..6) : Do(
  CASE k = 1 -> AskFor(11, "c1", "code", "openid", "-", FALSE, <<>>)
    [] k = 2 -> AskFor(11, "c1", "code", "openid profile offline_access", "consent", TRUE, <<<<"code_verifier", "verif-1">>>>)
    [] k = 3 -> AskFor(12, "c2", "code", "openid profile offline_access", "consent", TRUE, <<<<"code_verifier", "v w+x">>, <<"response_mode", "fragment">>>>)
    [] k = 4 -> AskFor(11, "c1", "code", "openid", "-", TRUE, <<<<"max_age", "19">>>>)
    [] k = 5 -> AskFor(11, "c1", "code id_token", "openid", "-", TRUE, <<<<"max_age", "20">>, <<"response_mode", "form_post">>>>)
    [] OTHER -> AskFor(12, "c1", "code", "openid profile", "none", FALSE, <<>>))
Approve_(u, i) == [Step0 EXCEPT !.k = "complete", !.env = [Env0 EXCEPT !.login = TRUE, !.uid = u, !.at = now - 5], !.rq = [Rq0 EXCEPT !.pend = i]]
Approves == \E i \in Draws(DOMAIN pend), u \in Draws(Users) : Do(Approve_(u, i))
ApproveLast == pend # <<>> /\ \E u \in Draws(Users) : Do(Approve_(u, Len(pend)))
Cancels == \E i \in Draws(DOMAIN pend) : Do([Step0 EXCEPT !.k = "cancel", !.env = [Env0 EXCEPT !.login = TRUE, !.uid = 11, !.at = now], !.rq = [Rq0 EXCEPT !.pend = i]])

Post(c, ps) == [Step0 EXCEPT !.rq = [Rq0 EXCEPT !.auth = AuthHdr(c), !.b = Ps(ps)]]
RedeemStep(code, c, ruri, extra) ==
  Post(c, <<<<"grant_type", "authorization_code">>, <<"code", code>>, <<"redirect_uri", ruri>>>> \o extra)
RedeemOne(i, c, right) ==
  LET s == st.sess[i]
  IN Do(RedeemStep(s.code, c, s.ruri, IF s.verifier = "" THEN <<>>
       ELSE <<<<"code_challenge_method", "S256">>, <<"code_challenge", IF right THEN S256(s.verifier) ELSE s.verifier>>>>))
Redeems == \E i \in Draws(DOMAIN st.sess), c \in Draws(Clients), right \in Draws(BOOLEAN) : RedeemOne(i, c, right)
RedeemLast == st.sess # <<>> /\ RedeemOne(Len(st.sess), st.infos[InfoIdx(st, st.sess[Len(st.sess)].auth)].cid, TRUE)
RedeemsOdd == \E i \in Draws(DOMAIN st.sess), x \in Draws({"uri", "head"}) :
  Do(RedeemStep(IF x = "head" THEN st.sess[i].code \o "x" ELSE st.sess[i].code, "c1", IF x = "uri" THEN "https://c1.example/CB" ELSE st.sess[i].ruri, <<>>))
Refreshes == \E i \in Draws({j \in DOMAIN st.toks : st.toks[j].rt # ""}), c \in Draws(Clients) :
  Do(Post(c, <<<<"grant_type", "refresh_token">>, <<"refresh_token", st.toks[i].rt>>>>))
(* tokens that have been replaced                                             *)
RefreshesOld == \E n \in Draws({m \in 1..cnt.tok : RTokIdx(st, "RT-" \o Str(m)) = 0}) :
  Do(Post("c1", <<<<"grant_type", "refresh_token">>, <<"refresh_token", "RT-" \o Str(n)>>>>))
DScopes == IF All THEN {"openid profile", "profile offline_access", "admin", "-"} ELSE {"profile offline_access"}
Passwords == Profile \in {"all", "direct"} /\ \E c \in Draws(Clients), u \in Draws({1, 2}), s \in Draws(DScopes), good \in Draws(IF All THEN {1, 2, 3, 0} ELSE {1}) :
  Do(Post(c, <<<<"grant_type", "password">>, <<"username", w.users[u].name>>, <<"password", IF good # 0 THEN w.users[u].pass ELSE "bad">>, <<"scope", s>>>>))
ClientCreds == Profile \in {"all", "direct"} /\ \E c \in Draws(IF All THEN Clients ELSE {"c1"}), s \in Draws(DScopes) :
  Do(Post(c, <<<<"grant_type", "client_credentials">>, <<"scope", s>>>>))
AnAssertion(c, sub, jti, exp) == [form |-> "ok", alg |-> "HS256", kid |-> "k1", key |-> IF c = "c1" THEN "hs:ak1" ELSE "hs:bk1", smeth |-> "",
  claims |-> <<Cl("sub", "s", sub), Cl("aud", "s", World0.issuer), Cl("exp", "i", exp), Cl("jti", "s", jti)>>]
JwtGrants == Profile \in {"all", "direct"} /\ \E c \in Draws(Clients), k \in Draws(IF All THEN Clients ELSE {"c1"}), sub \in Draws(IF All THEN {"alice-sub", "bob-sub"} ELSE {"alice-sub"}),
                j \in Draws(IF All THEN {"j1", "j2"} ELSE {"j1"}) :
  Do([Post(c, <<<<"grant_type", JWTB>>, <<"assertion", "$ja">>, <<"scope", "profile">>>>) EXCEPT !.rq.ja = AnAssertion(k, sub, j, T0 + 100)])
ByAssertion == \E c \in Draws(Clients), j \in Draws({"j1", "j3", "j5"}), gt \in Draws({"client_credentials", "refresh_token"}) :
  Do([Step0 EXCEPT !.rq = [Rq0 EXCEPT !.ca = AnAssertion(c, c, j, T0 + 150),
    !.b = Ps(<<<<"client_assertion", "$ca">>, <<"client_assertion_type", JWTB>>, <<"grant_type", gt>>,
               IF gt = "refresh_token" THEN <<"refresh_token", IF Len(st.toks) = 0 THEN "x" ELSE st.toks[Len(st.toks)].rt>> ELSE <<"scope", "profile">>>>)]])
Uses == \E n \in Draws(1..cnt.tok) : Do(ResStep(now, "AT-" \o Str(n)))
UseLast == cnt.tok > 0 /\ Do(ResStep(now, "AT-" \o Str(cnt.tok)))
UsesOdd == \E n \in Draws(1..cnt.tok), x \in Draws({"rt", "code", "query"}) :
  Do(CASE x = "rt" -> ResStep(now, "RT-" \o Str(n)) [] x = "code" -> ResStep(now, "CODE-" \o Str(n))
       [] OTHER -> [Step0 EXCEPT !.k = "res", !.rq = [Rq0 EXCEPT !.m = "GET", !.path = "/api/read", !.q = Ps(<<<<"access_token", "AT-" \o Str(n)>>>>)]])
Revokes == \E i \in Draws({j \in DOMAIN st.infos : st.infos[j].active}) : Do([Step0 EXCEPT !.k = "revoke", !.rq = [Rq0 EXCEPT !.auth_ = st.infos[i].id]])
Ticks == /\ Len(hist) < Depth
         /\ \E d \in Draws(IF All THEN {1, 10, 39, 40, 41, 60, 61, 79, 80, 100, 101} ELSE {60, 41}) : now' = now + d
         /\ (All \/ now < T0 + 160)
         /\ bad' = {} /\ UNCHANGED <<w, st, pend, led, cnt, used, hist>>

Exh == \/ Authorize \/ Approves \/ (Profile = "code" /\ Cancels) \/ Redeems \/ Refreshes \/ RefreshesOld
       \/ Passwords \/ ClientCreds \/ JwtGrants \/ Uses \/ Revokes \/ Ticks
Sim == \/ Authorize \/ Authorize \/ AskOffline \/ AuthorizeOdd \/ Approves \/ ApproveLast \/ ApproveLast \/ Cancels \/ Redeems \/ RedeemLast \/ RedeemLast
       \/ RedeemsOdd \/ Refreshes \/ Refreshes \/ RefreshesOld \/ Passwords \/ ClientCreds \/ JwtGrants \/ ByAssertion
       \/ Uses \/ UseLast \/ UsesOdd \/ Revokes \/ Ticks
Next == IF All THEN Sim ELSE Exh
SpecExh == Init /\ [][Exh]_vars
SpecSim == Init /\ [][Sim]_vars
View == <<w, st, pend, led, cnt, now, used, bad>>

(* -------------------------------------------------------------- guarantees *)
RulesImplyHistory == bad = {}
CodeOnce == \A i, j \in DOMAIN used.c : (used.c[i] # "" /\ used.c[i] = used.c[j]) => i = j
DisabledIffRedeemed == \A i \in DOMAIN st.sess : st.sess[i].on <=> st.sess[i].code \notin Range(used.c)
TokensHaveOwners == \A i \in DOMAIN st.toks : InfoIdx(st, st.toks[i].auth) # 0
FrontHasNoRefresh == \A i \in DOMAIN st.toks : st.toks[i].front => st.toks[i].rt = ""
OfflineOnly == \A i \in DOMAIN st.toks : st.toks[i].rt # "" => ~st.toks[i].front
(* what the store holds is what was approved                                  *)
GrantsWereApproved == \A i \in DOMAIN st.infos : LET x == st.infos[i] IN
  \E a \in led.appr : a.uid = x.uid /\ a.cid = x.cid /\ a.scope = x.scope /\ a.live = x.active
OneGrantEach == \A i, j \in DOMAIN st.infos : (st.infos[i].uid = st.infos[j].uid /\ st.infos[i].cid = st.infos[j].cid) => i = j
JtiOnce == \A i, j \in DOMAIN st.jtis : st.jtis[i] = st.jtis[j] => i = j
(* every live token of the store is one somebody was given                    *)
Accounted == \A i \in DOMAIN st.toks : \E e \in led.ats : e.at = st.toks[i].at /\ e.uid = st.infos[InfoIdx(st, st.toks[i].auth)].uid
                                                            /\ e.cid = st.infos[InfoIdx(st, st.toks[i].auth)].cid

(* ------------------------------------------------------------------ export *)
Scenario == Sc("hist", w, NoStore0, hist)
Export == (Len(hist) = Depth /\ (Every <= 1 \/ TLCGet("distinct") % Every = 0)) => PrintT("HIST|" \o ToJson(Scenario))
=============================================================================
