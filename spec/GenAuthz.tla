------------------------------- MODULE GenAuthz -------------------------------
(* Scenario families of the authorization endpoint.  All of them share one   *)
(* builder; a family varies some of the fields below and leaves the others   *)
(* at their ordinary value.                                                  *)
EXTENDS GenToken, Authz

HintOk == [form |-> "ok", alg |-> "HS256", kid |-> "ik1", key |-> "hs:ik1", smeth |-> "",
  claims |-> <<Cl("sub", "s", "alice-sub"), Cl("iss", "s", World0.issuer), Cl("aud", "s", "c1"), Cl("exp", "i", T0 + 300), Cl("iat", "i", T0 - 10)>>]
ADef == [
  cid |-> "c1", ruri |-> "https://c1.example/cb", rt |-> "code", rmode |-> "-", state |-> "st1", scope |-> "openid profile",
  nonce |-> "n1", display |-> "-", maxage |-> "-", prompt |-> "-", verifier |-> "-", locales |-> "-", lghint |-> "-", idhint |-> "-",
  hint |-> HintOk, meth |-> "GET", tr |-> "query",
  login |-> TRUE, uid |-> 11, at |-> T0 - 50, fromlogin |-> FALSE, subs |-> <<"alice-sub">>,
  pol |-> World0.pol, noconsent |-> "omit", none |-> "session", flows |-> <<"code", "implicit", "hybrid">>, scopes |-> Scopes(AllScopes),
  id |-> <<"HS256", "ik1", "hs:ik1">>, issuer |-> World0.issuer, tok |-> World0.tok,
  given |-> [scope |-> "openid profile", at |-> T0 - 100, active |-> TRUE], fault |-> NoFault,
  auid |-> 11, aat |-> T0 - 40, afault |-> NoFault, act |-> "complete", dup |-> "none"]
AVal(A, a, n) == IF n \in DOMAIN A.pos THEN Val(A, a, n) ELSE ADef[n]

SplitPs(m, tr, ps) ==
  LET half == Len(ps) \div 2
  IN [m |-> m, b |-> CASE tr = "query" -> <<>> [] tr = "body" -> ps [] OTHER -> SubSeq(ps, 1, half),
               q |-> CASE tr = "query" -> ps [] tr = "body" -> <<>> [] OTHER -> SubSeq(ps, half + 1, Len(ps))]
AWorld(A, a) ==
  LET v(n) == AVal(A, a, n)
  IN [World0 EXCEPT !.pol = v("pol"), !.issuer = v("issuer"), !.tok = v("tok"),
        !.clients[1] = [WithId(Client1, v("id")) EXCEPT !.noconsent = v("noconsent"), !.none = v("none"), !.flows = v("flows"), !.scopes = v("scopes")]]
AStore(A, a) ==
  LET g == AVal(A, a, "given")
      given == <<[Info(1, 11, "c1", g.scope) EXCEPT !.at = g.at, !.active = g.active]>>
  IN [Store0 EXCEPT !.infos = (IF g.scope = "absent" THEN <<>> ELSE given) \o Tail(Store0.infos)]
AEnv(A, a) ==
  LET v(n) == AVal(A, a, n)
  IN [login |-> v("login"), uid |-> IF v("login") THEN v("uid") ELSE -1, at |-> v("at"), fromLogin |-> v("fromlogin"), subs |-> v("subs"), locale |-> "en"]
AReq(A, a) ==
  LET v(n) == AVal(A, a, n)
      ps == Ps(<<<<"client_id", v("cid")>>, <<"redirect_uri", v("ruri")>>, <<"response_type", v("rt")>>, <<"scope", v("scope")>>, <<"state", v("state")>>,
        <<"response_mode", v("rmode")>>, <<"nonce", v("nonce")>>, <<"display", v("display")>>, <<"max_age", v("maxage")>>, <<"prompt", v("prompt")>>,
        <<"code_verifier", v("verifier")>>, <<"ui_locales", v("locales")>>, <<"login_hint", v("lghint")>>, <<"id_token_hint", v("idhint")>>>>)
      s == SplitPs(v("meth"), v("tr"), ps)
  IN Dup([Rq0 EXCEPT !.m = s.m, !.b = s.b, !.q = s.q, !.hint = IF v("idhint") = "$hint" THEN v("hint") ELSE NoJwt], v("dup"))
AStep(A, a) == [Step0 EXCEPT !.k = "authz", !.env = AEnv(A, a), !.rq = AReq(A, a), !.fault = AVal(A, a, "fault")]
(* the user approves (or not) the first screen shown                          *)
AfterStep(A, a) ==
  LET v(n) == AVal(A, a, n)
  IN [Step0 EXCEPT !.k = v("act"), !.now = T0 + 1, !.env = [Env0 EXCEPT !.login = TRUE, !.uid = v("auid"), !.at = v("aat")],
                   !.rq = [Rq0 EXCEPT !.pend = 1], !.fault = v("afault")]
(* the client redeems what it got, then uses it                              *)
Redeem(now, cr, ruri, verifier) ==
  TStep(now, TRq("POST", "body", cr, <<<<"grant_type", "authorization_code">>, <<"redirect_uri", ruri>>, <<"code", "CODE-1">>>> \o
    (IF verifier \in {"-", ""} THEN <<>> ELSE <<<<"code_challenge_method", "plain">>, <<"code_challenge", verifier>>>>), NoJwt), NoFault)
CredOf(cid) == CASE cid = "c2" -> [CredOk EXCEPT !.h = Hdr("basic", "c2", "s2")]
                 [] cid = "c:3 x" -> [CredOk EXCEPT !.h = Hdr("basic", "c:3 x", "p@s+s:%/&~00E9~")] [] OTHER -> CredOk
ASc(fam, A, a) ==
  LET v(n) == AVal(A, a, n)
      rd == Redeem(T0 + 2, CredOf(v("cid")), v("ruri"), v("verifier"))
  IN Sc(fam, AWorld(A, a), AStore(A, a),
        CASE fam = "avalid" -> <<AStep(A, a), AfterStep(A, a)>>
          [] fam = "ainter" -> <<AStep(A, a), AfterStep(A, a), rd>>
          [] fam = "anone" -> <<AStep(A, a), rd>>
          [] OTHER -> <<AStep(A, a), AfterStep(A, a), rd, ResStep(T0 + 3, "AT-1"), ResStep(T0 + 3, "AT-2")>>)

(* ------------------------------------------------- validation of the request *)
Pol0 == World0.pol
PolDim == <<Pol0, [Pol0 EXCEPT !.emptyScope = TRUE], [Pol0 EXCEPT !.secMode = FALSE], [Pol0 EXCEPT !.ignoreMode = TRUE],
  [Pol0 EXCEPT !.ignoreMode = TRUE, !.secMode = FALSE], [Pol0 EXCEPT !.codeMode = "fragment"], [Pol0 EXCEPT !.codeMode = "form_post", !.implMode = "form_post"],
  [Pol0 EXCEPT !.implMode = "query"], [Pol0 EXCEPT !.minMaxAge = 60, !.maxMaxAge = 120], [Pol0 EXCEPT !.minMaxAge = -10, !.maxMaxAge = 2147480000],
  [Pol0 EXCEPT !.maxNonce = 2, !.maxVerifier = 8], [Pol0 EXCEPT !.maxNonce = 512, !.maxVerifier = 128], [Pol0 EXCEPT !.codeMode = "form_post", !.ignoreMode = TRUE], [Pol0 EXCEPT !.codeTTL = 0, !.idTTL = 1], [Pol0 EXCEPT !.maxMaxAge = Huge]>>
RTDim == <<"code", "id_token", "token", "id_token token", "code id_token", "code token", "code id_token token",
  "token id_token", "id_token code", "token code", "token id_token code", "id_token code token", "token code id_token",
  "-", "", "none", "foo", "CODE", "code code", "code foo", "code none", "id_token id_token", "token token", "code id_token token token", "code,token", "codetoken", "id_tokentoken", "code  token", " code", "code ", "token  id_token", "code~0009~token", "code+token">>
RModeDim == <<"-", "query", "fragment", "form_post", "", "QUERY", "web_message", "form_post ", "query.jwt">>
RuriDim == <<"https://c1.example/cb", "-", "", "https://c1.example/CB", "https://c1.example/cb?x=1&y=a%20b", "com.c1.app:/cb", "https://c1.example/cb?",
  "https://c1.example/cb/", "https://c1.example/cb#f", "https://c1.example/cb?x=1", "https://c1.example/c", "https://c1.example/cbx", "https://c1.example/cb2",
  "https://c2.example/cb", "http://c1.example/cb", "https://evil.example/", "https://c1.example/p?q='><script>alert(1)</script>&z=\"",
  "http://localhost:8080/a/b/../c", "https://c1.example/%7Euser/cb", "https://c1.example/~007E~user/cb", "https://c1.example:8443/cb;v=1", "https://c1.example", LongURI, SubSeq(LongURI, 1, 1024), "https://c1.example/", " https://c1.example/cb", "https://c1.example/cb?q=1&copy=2&lt=3&amp;amp=4">>
StateDim == <<"st1", "-", "", "a b&c=d#e?f", "~00E9~~4E16~", "%20+%2B", "'><script>x</script>", "\"onload=\"", "~000A~Set-Cookie: a=b", "0", "&code=evil&access_token=x", "a;b,c/d\\e", Dbl("0123 56789&bcdef", 7)>>
AScopeDim == <<"openid profile", "-", "", "openid", "profile", "profile openid", "openid profile offline_access", "offline_access", "openid offline_access", "offline_access profile",
  "openid admin", "admin", "openidx profile", "openid profile email read write", "OPENID", "address/x openid", "openid http://s.example/a", "offline_accessx openid", "profile offline_access openid", "openid openid", "openid profile openid", "profile openid profile", "openid profile offline_access offline_access", "offline_access openid offline_access profile">>
NonceDim == <<"n1", "-", "", "n234567890123456", "n2345678901234567", "n 1&=+", "~00E9~x", "ab", "abc", Dbl("n", 9), Dbl("n", 9) \o "x", " n 2 ">>
DisplayDim == <<"-", "page", "popup", "touch", "wap", "", "PAGE", "foo", "page ">>
MaxAgeDim == <<"-", "0", "49", "50", "51", "86400", "86401", "-1", "", "abc", "1.5", "60", "59", "120", "121", "+60", "060", "99999999999999999999", " 60", "1e3", "0x10", "-0", "1000000000", "4294967356", "18446744073709551676", "2147483708", "9223372036", "9223372037", "9223372036854775807", "9223372036854775808", "18446744073709551617", "09223372036854775807">>
PromptDim == <<"-", "none", "login", "consent", "select_account", "login consent", "consent login", "none login", "none none", "consent none", "foo", "", "login foo", "NONE", "consent select_account login", "login login", "none none none">>
Verif43 == "dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk"
VerifierDim == <<"-", "verif-1", "", Verif43, Verif43 \o "x", "v w+x", "verif-12", "verif-123", Verifier128, Verifier128 \o "x">>
FlowsDim == <<<<"code", "implicit", "hybrid">>, <<"code">>, <<"implicit">>, <<"hybrid">>, <<>>, <<"implicit", "hybrid">>, <<"code", "hybrid">>, <<"direct">>>>
ScopesDim == <<Scopes(AllScopes), Scopes(<<>>), Scopes(<<"openid">>), [Scopes(<<>>) EXCEPT !.code = AllScopes], [Scopes(<<>>) EXCEPT !.implicit = AllScopes],
  [Scopes(<<>>) EXCEPT !.hybrid = AllScopes], [Scopes(<<>>) EXCEPT !.direct = AllScopes], [Scopes(AllScopes) EXCEPT !.code = <<"openid", "profile">>], [Scopes(AllScopes) EXCEPT !.implicit = <<"openid", "profile">>]>>
AValidDims == <<
  <<"cid", <<"c1", "-", "", "cX", "c2", "C1", "c:3 x">>>>, <<"ruri", RuriDim>>, <<"rt", RTDim>>, <<"rmode", RModeDim>>, <<"pol", PolDim>>, <<"state", StateDim>>,
  <<"scope", AScopeDim>>, <<"nonce", NonceDim>>, <<"display", DisplayDim>>, <<"maxage", MaxAgeDim>>, <<"prompt", PromptDim>>, <<"verifier", VerifierDim>>,
  <<"flows", FlowsDim>>, <<"scopes", ScopesDim>>, <<"locales", <<"-", "ja fr", "">>>>, <<"meth", <<"GET", "POST">>>>, <<"tr", <<"query", "body", "split">>>>,
  <<"login", <<TRUE, FALSE>>>>,
  <<"dup", DupDim(<<"client_id", "redirect_uri", "response_type", "response_mode", "scope", "state", "nonce", "prompt", "max_age", "display", "code_verifier">>)>>>>
AValidSc(A, a) == ASc("avalid", A, a)

(* ------------------------------------------------- login and consent         *)
GivenDim == <<ADef.given, [ADef.given EXCEPT !.scope = "absent"], [ADef.given EXCEPT !.active = FALSE], [ADef.given EXCEPT !.scope = "profile openid"],
  [ADef.given EXCEPT !.scope = "openid"], [ADef.given EXCEPT !.scope = "openid profile email"], [ADef.given EXCEPT !.scope = ""], [ADef.given EXCEPT !.scope = "openid profilex"],
  [ADef.given EXCEPT !.at = T0 - 999], [ADef.given EXCEPT !.at = T0 - 1000], [ADef.given EXCEPT !.at = T0 - 1001], [ADef.given EXCEPT !.at = 0], [ADef.given EXCEPT !.at = T0 + 10],
  [ADef.given EXCEPT !.scope = "openid profile offline_access"], [ADef.given EXCEPT !.scope = "profile"], [ADef.given EXCEPT !.scope = "OPENID profile"], [ADef.given EXCEPT !.scope = "openid email"], [ADef.given EXCEPT !.scope = "openid openid"], [ADef.given EXCEPT !.scope = "profile openid profile"]>>
AtDim == <<T0 - 50, T0, T0 - 60, T0 - 61, T0 - 59, T0 - 86400, T0 - 86401, 0, T0 + 100, T0 - 1>>
IMaxAge == <<"-", "0", "1", "50", "49", "59", "60", "61", "86400", "100", "8589934651", "9223372037", "18446744074", "9223372036854775807">>
IPrompt == <<"-", "login", "consent", "select_account", "login consent", "consent login", "consent select_account", "login select_account">>
CbFaults == <<"ChooseLocale", "ConfirmLoginSession", "RequestIsFromLogin", "GetAuthTime", "GetLoginUserId", "LoginUserIsMatchedToSubject",
  "ShowLoginScreen", "ShowConsentScreen", "CreateAuthorizationCode", "Continue">>
ErrFaults == [i \in DOMAIN CbFaults |-> Ft(CbFaults[i], "err")]
AFaults == Faults(ErrFaults \o All4("FindClientById") \o All4("FindAuthInfoByUserIdAndClientId") \o All4("CreateOAuthToken") \o All3("CreateAuthSession") \o All4("CreateOrUpdateAuthInfo")
  \o <<[m |-> "FindClientById", kind |-> "server", n |-> 2], [m |-> "FindClientById", kind |-> "nil", n |-> 2], [m |-> "FindClientById", kind |-> "failed", n |-> 2],
       [m |-> "FindClientById", kind |-> "unsupported", n |-> 2], [m |-> "GetAuthTime", kind |-> "err", n |-> 2]>>)
FlowDim == <<"code", "id_token", "token", "id_token token", "code id_token", "code token", "code id_token token">>
AInterDims == <<
  <<"login", <<TRUE, FALSE>>>>, <<"uid", <<11, 12, 0, 99>>>>, <<"at", AtDim>>, <<"fromlogin", <<FALSE, TRUE>>>>, <<"maxage", IMaxAge>>, <<"prompt", IPrompt>>,
  <<"noconsent", <<"omit", "force">>>>, <<"given", GivenDim>>, <<"scope", <<"openid profile", "profile openid", "openid", "openid profile offline_access", "profile", "openid profile email", "openid openid", "openid profile profile">>>>,
  <<"pol", <<Pol0, [Pol0 EXCEPT !.omission = 0], [Pol0 EXCEPT !.omission = 100], [Pol0 EXCEPT !.omission = 101], [Pol0 EXCEPT !.omission = 1000000], [Pol0 EXCEPT !.emptyScope = TRUE], [Pol0 EXCEPT !.maxMaxAge = Huge], [Pol0 EXCEPT !.minMaxAge = -100]>>>>,
  <<"rt", FlowDim>>, <<"cid", <<"c1", "c2">>>>, <<"ruri", <<"https://c1.example/cb", "https://c2.example/cb">>>>, <<"verifier", <<"-", "v w+x">>>>, <<"state", <<"st1", "-", "a b&c=d#e?f">>>>, <<"dup", DupDim(<<"prompt", "max_age">>)>>, <<"meth", <<"GET", "POST">>>>, <<"tr", <<"query", "body", "split">>>>,
  <<"fault", AFaults>>, <<"auid", <<11, 12, 0>>>>, <<"aat", <<T0 - 40, 0, T0 + 1>>>>, <<"act", <<"complete", "cancel">>>>>>
AInterSc(A, a) == ASc("ainter", A, a)

(* ------------------------------------------------- prompt=none              *)
NoneHints == <<HintOk,
  [HintOk EXCEPT !.claims[1] = Cl("sub", "s", "bob-sub")], [HintOk EXCEPT !.claims[1] = Cl("sub", "i", 11)], [HintOk EXCEPT !.claims = Tail(@)], [HintOk EXCEPT !.claims[1] = Cl("sub", "s", "")],
  [HintOk EXCEPT !.claims[4] = Cl("exp", "i", T0)], [HintOk EXCEPT !.claims[4] = Cl("exp", "i", T0 - 1)], [HintOk EXCEPT !.claims[4] = Cl("exp", "i", 0)], [HintOk EXCEPT !.claims[4] = Cl("exp", "si", T0 + 300)],
  [HintOk EXCEPT !.claims = SubSeq(@, 1, 3)], [HintOk EXCEPT !.claims[4] = Cl("exp", "i", -1)], [HintOk EXCEPT !.claims[4] = Cl("exp", "f", T0 + 5)], [HintOk EXCEPT !.claims[5] = Cl("iat", "i", T0 + 100)],
  [HintOk EXCEPT !.key = "hs:ik2"], [HintOk EXCEPT !.alg = "none", !.key = "none"], [HintOk EXCEPT !.key = "none"], [HintOk EXCEPT !.alg = "HS512"], [HintOk EXCEPT !.kid = ""],
  [HintOk EXCEPT !.form = "garbage"], [HintOk EXCEPT !.form = "tampered"], [HintOk EXCEPT !.form = "nosig"], [HintOk EXCEPT !.form = "cutsig"], [HintOk EXCEPT !.form = "twoparts"],
  [HintOk EXCEPT !.alg = "RS256", !.kid = "rk", !.key = "rsa1"], [HintOk EXCEPT !.alg = "RS256", !.key = "rsa2"], [HintOk EXCEPT !.alg = "HS256", !.key = "pubpem:rsa1"],
  [HintOk EXCEPT !.alg = "ES256", !.key = "ec1"], [HintOk EXCEPT !.alg = "HS256", !.smeth = "HS512"], [HintOk EXCEPT !.alg = "XX999"], [HintOk EXCEPT !.claims[1] = Cl("sub", "s", "ALICE-SUB")],
  [HintOk EXCEPT !.key = "hs:ak1", !.kid = "k1"], [HintOk EXCEPT !.alg = "RS256", !.key = "rsa1", !.kid = "k2"], [HintOk EXCEPT !.key = "hs:ak4", !.kid = "", !.alg = "HS512"]>>
LgHints == <<"alice-sub", "bob-sub", "", "ALICE-SUB", "alice-sub ", "nobody", "zero@sub", "bob@example.com", "+819012345678", "alice", "alice-sub2", " alice-sub",
  "alice-sub\n", "alice-sub bob-sub", "bob-sub alice-sub", "*", "%61lice-sub", "https://bob.example/", "0", "11">>
ANoneDims == <<
  <<"prompt", <<"none", "none none", "none login", "none consent">>>>, <<"none", <<"session", "loginhint", "idhint", "forbidden">>>>,
  <<"idhint", <<"-", "$hint", "", "garbage">>>>, <<"hint", NoneHints>>, <<"lghint", <<"-">> \o LgHints>>,
  <<"subs", <<<<"alice-sub">>, <<>>, <<"alice-sub", "bob-sub">>, <<"bob-sub">>, <<"">>>>>>,
  <<"login", <<TRUE, FALSE>>>>, <<"uid", <<11, 12, 0>>>>, <<"given", GivenDim>>, <<"at", AtDim>>, <<"maxage", IMaxAge>>, <<"noconsent", <<"omit", "force">>>>,
  <<"rt", FlowDim>>, <<"scope", <<"openid profile", "profile openid", "openid", "openid profile offline_access", "openid email", "openid openid", "profile openid openid">>>>, <<"fromlogin", <<FALSE, TRUE>>>>,
  <<"id", <<<<"HS256", "ik1", "hs:ik1">>, <<"RS256", "rk", "rsa1">>, <<"ES256", "ek", "ec1">>, <<"HS256", "ik1", "nil">>>>>>, <<"rmode", <<"-", "form_post", "fragment">>>>, <<"dup", DupDim(<<"prompt", "login_hint", "id_token_hint", "scope">>)>>, <<"meth", <<"GET", "POST">>>>, <<"tr", <<"query", "body">>>>,
  <<"fault", Faults(ErrFaults \o All4("FindAuthInfoByUserIdAndClientId"))>>,
  <<"pol", <<Pol0, [Pol0 EXCEPT !.omission = 0], [Pol0 EXCEPT !.omission = 101], [Pol0 EXCEPT !.omission = 1000000], [Pol0 EXCEPT !.maxMaxAge = Huge], [Pol0 EXCEPT !.minMaxAge = -100]>>>>>>
ANoneSc(A, a) == ASc("anone", A, a)
(* the same with the two hint policies as the ordinary case                  *)
AHintDims(none) == [i \in DOMAIN ANoneDims |->
  CASE ANoneDims[i][1] = "none" -> <<"none", <<none>>>>
    [] ANoneDims[i][1] = "idhint" /\ none = "idhint" -> <<"idhint", <<"$hint", "-", "", "garbage">>>>
    [] ANoneDims[i][1] = "lghint" /\ none = "loginhint" -> <<"lghint", <<"alice-sub", "-">> \o Tail(LgHints)>>
    [] OTHER -> ANoneDims[i]]

(* ------------------------------------------------- what is issued, and how  *)
ADoneDims == <<
  <<"rt", SubSeq(RTDim, 1, 13)>>, <<"rmode", <<"-", "query", "fragment", "form_post">>>>, <<"pol", PolDim>>, <<"state", StateDim>>,
  <<"ruri", SelectSeq(RuriDim, LAMBDA u : u \in Range(Client1.ruris))>>, <<"id", IdDim>>, <<"nonce", <<"n1", "-", "n 1&=+", "~00E9~x", " n 2 ">>>>, <<"at", <<T0 - 50, 0, T0, 1>>>>,
  <<"uid", <<11, 12, 0>>>>, <<"tok", TokDim>>, <<"issuer", <<"https://op.example/", "op">>>>, <<"given", SubSeq(GivenDim, 1, 4)>>, <<"prompt", <<"-", "none", "consent", "login">>>>,
  <<"scope", <<"openid profile", "profile openid", "openid", "openid profile offline_access", "openid http://s.example/a">>>>, <<"verifier", <<"-", "verif-1", "v w+x", "xx>>??yy">>>>,
  <<"locales", <<"-", "ja fr">>>>, <<"lghint", <<"-", "x~00E9~ y">>>>, <<"idhint", <<"-", "$hint", "a b&c~00E9~">>>>, <<"display", <<"-", "popup">>>>, <<"maxage", <<"-", "100">>>>, <<"dup", DupDim(<<>>)>>, <<"meth", <<"GET", "POST">>>>, <<"tr", <<"query", "body", "split">>>>, <<"fault", AFaults>>, <<"act", <<"complete", "cancel">>>>>>
ADoneSc(A, a) == ASc("adone", A, a)

(* ------------------------------------------------- after the screen         *)
Pend0 == [cid |-> "c1", rt |-> "code", scope |-> "openid profile", ruri |-> "https://c1.example/cb", mode |-> "query", state |-> "st1", verifier |-> "", nonce |-> "n1",
          display |-> "page", prompt |-> "", maxAge |-> 0, locale |-> "en", idHint |-> "", lgHint |-> ""]
AContDims == <<
  <<"act", <<"complete", "cancel">>>>, <<"prt", <<"code", "implicit+id_token", "implicit+token", "implicit+id_token+token", "hybrid+id_token", "hybrid+token", "hybrid+id_token+token">>>>,
  <<"mode", <<"query", "fragment", "form_post">>>>, <<"state", <<"st1">> \o <<"">> \o SubSeq(StateDim, 4, Len(StateDim))>>,
  <<"ruri", SelectSeq(RuriDim, LAMBDA u : u \in Range(Client1.ruris))>>, <<"cid", <<"c1", "c2", "c:3 x">>>>,
  <<"scope", <<"openid profile", "", "profile", "openid profile offline_access", "openid http://s.example/a">>>>, <<"verifier", <<"", "verif-1", "v w+x", "xx>>??yy", Verifier128>>>>,
  <<"nonce", <<"n1", "", "n 1&=+", "~00E9~x", Dbl("n", 9), " n 2 ">>>>, <<"prompt", <<"", "consent", "login">>>>, <<"maxAge", <<0, 1, 100>>>>,
  <<"auid", <<11, 12, 0, -1, 2147480000>>>>, <<"aat", <<T0 - 40, 0, T0, 1>>>>, <<"pend", <<1, 2, 0>>>>, <<"given", SubSeq(GivenDim, 1, 5)>>, <<"id", IdDim>>,
  <<"pol", <<Pol0, [Pol0 EXCEPT !.codeTTL = 7, !.idTTL = 77], [Pol0 EXCEPT !.codeMode = "form_post", !.implMode = "form_post"]>>>>, <<"tok", TokDim>>, <<"meth", <<"POST", "GET">>>>,
  <<"issuer", <<"https://op.example/", "op">>>>, <<"junk", <<FALSE, TRUE>>>>,
  <<"fault", AFaults>>>>
AContSc(A, a) ==
  LET v(n) == AVal(A, a, n)
      p == [Pend0 EXCEPT !.cid = v("cid"), !.rt = v("prt"), !.scope = v("scope"), !.ruri = v("ruri"), !.mode = v("mode"), !.state = v("state"),
                         !.verifier = v("verifier"), !.nonce = v("nonce"), !.prompt = v("prompt"), !.maxAge = v("maxAge")]
      \* parameters on the approving request are not those of the authorization request
      junk == IF v("junk") THEN <<KV("redirect_uri", "https://evil.example/"), KV("state", "evil"), KV("scope", "admin"), KV("client_id", "c2"), KV("response_mode", "query"), KV("max_age", "0")>> ELSE <<>>
      go == [Step0 EXCEPT !.k = v("act"), !.env = [Env0 EXCEPT !.login = TRUE, !.uid = v("auid"), !.at = v("aat")],
                          !.rq = [Rq0 EXCEPT !.m = v("meth"), !.pend = v("pend"), !.q = junk], !.fault = v("fault")]
  IN Sc("acont", AWorld(A, a), [AStore(A, a) EXCEPT !.pend = <<p>>],
        <<go, Redeem(T0 + 2, CredOf(v("cid")), v("ruri"), v("verifier")), ResStep(T0 + 3, "AT-1"), ResStep(T0 + 3, "AT-2")>>)
=============================================================================
