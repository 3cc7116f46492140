------------------------------ MODULE GenChange ------------------------------
(* Two families about time: "change", where registrations, accounts and the  *)
(* issuer change between requests handled by the same endpoint objects, and  *)
(* "wall", where the endpoints were not told about a clock.                  *)
EXTENDS GenConc, GenRes

(* ----------------------------------------------------------------- change   *)
GWorld == [World0 EXCEPT !.te.secret = "all", !.te.assertion = TRUE, !.rp.from = "all", !.clients[3].akeys = Client1.akeys]
N3(p, i) == p \o ToString(i)
GStore == [Store0 EXCEPT
  !.sess = [i \in 1..4 |-> Sess(N3("gc", i), 1)],
  !.toks = [i \in 1..4 |-> Tok(N3("gat", i), N3("grt", i), 1)] \o <<Tok("sat2", "srt2", 2)>>]
GAt(now, s) == [s EXCEPT !.now = now]
GPost(cr, i, gps) == TStep(T0 + i, TRq("POST", "body", cr, gps, NoJwt), NoFault)
GCode(i) == <<<<"grant_type", "authorization_code">>, <<"redirect_uri", "https://c1.example/cb">>, <<"code", N3("gc", i)>>>>
GRefresh(i) == <<<<"grant_type", "refresh_token">>, <<"refresh_token", N3("grt", i)>>>>
GCA(i) == CA("c1", "k1", "hs:ak1", N3("jg", i))
GByAssert(i, ca, gps) == GPost(Cred(NoAuth, "header", TRUE, CAParams, <<>>, ca), i, gps)
GJa(i, ja) == TStep(T0 + i, TRq("POST", "body", CredOk, <<<<"grant_type", JWTB>>, <<"assertion", "$ja">>, <<"scope", "profile">>>>, ja), NoFault)
GAuthz(i, rt, prompt, scope, idhint, lghint) ==
  [Step0 EXCEPT !.k = "authz", !.now = T0 + i, !.env = [Env0 EXCEPT !.login = TRUE, !.uid = 11, !.at = T0 - 50, !.subs = <<"alice-sub">>],
     !.rq = [Rq0 EXCEPT !.m = "GET", !.q = Ps(<<<<"client_id", "c1">>, <<"redirect_uri", "https://c1.example/cb">>, <<"response_type", rt>>, <<"scope", scope>>, <<"state", N3("st", i)>>,
       <<"nonce", N3("n", i)>>, <<"prompt", prompt>>, <<"id_token_hint", idhint>>, <<"login_hint", lghint>>>>), !.hint = IF idhint = "-" THEN NoJwt ELSE HintOk]]
GGo(i, act, uid) == [Step0 EXCEPT !.k = act, !.now = T0 + i, !.env = [Env0 EXCEPT !.login = TRUE, !.uid = uid, !.at = T0 - 40], !.rq = [Rq0 EXCEPT !.pend = i]]
GNone == <<"session", "idhint", "loginhint">>
(* what is asked for, the i-th time                                          *)
GKinds == 26
GKind(k, i) ==
  CASE k = 1 -> <<GPost(CredOk, i, GCode(i))>>
    [] k = 2 -> <<GPost(Cred(NoAuth, "all", TRUE, SecP("c1", "s1"), <<>>, NoJwt), i, GCode(i))>>
    [] k = 3 -> <<GPost(Cred(NoAuth, "all", TRUE, <<>>, SecP("c1", "s1"), NoJwt), i, GRefresh(i))>>
    [] k = 4 -> <<GPost(CredOk, i, GRefresh(i))>>
    [] k = 5 -> <<GPost(CredOk, i, GRefresh(1))>>
    [] k = 6 -> <<GPost(CredOk, i, <<<<"grant_type", "password">>, <<"username", "alice">>, <<"password", "pw1">>, <<"scope", "profile offline_access">>>>)>>
    [] k = 7 -> <<GPost(CredOk, i, <<<<"grant_type", "client_credentials">>, <<"scope", "openid read">>>>)>>
    [] k = 8 -> <<GJa(i, [JaOk EXCEPT !.claims[4].v = N3("jg", i)])>>
    [] k = 9 -> <<GJa(i, [JaOk EXCEPT !.alg = "RS256", !.kid = "k2", !.key = "rsa1", !.claims = SubSeq(@, 1, 3)])>>
    [] k = 10 -> <<GByAssert(i, GCA(i), GCode(i))>>
    [] k = 11 -> <<GByAssert(i, [GCA(i) EXCEPT !.alg = "ES256", !.kid = "k3", !.key = "ec1"], <<<<"grant_type", "client_credentials">>, <<"scope", "profile">>>>)>>
    [] k = 12 -> <<GAuthz(i, "code", "-", Full, "-", "-")>>
    [] k = 13 -> <<GAuthz(i, "id_token token", "-", Full, "-", "-")>>
    [] k = 14 -> <<GAuthz(i, "code id_token", "-", Full, "-", "-")>>
    [] k = 15 -> <<GAuthz(i, "code", "none", Full, "$hint", "alice-sub")>>
    [] k = 16 -> <<GAuthz(i, "code id_token token", "none", Full, "$hint", "alice-sub")>>
    [] k = 17 -> <<GAuthz(i, "code", "consent", "openid profile", "-", "-"), GGo(i, "complete", 11)>>
    [] k = 18 -> <<GAuthz(i, "id_token", "consent", "openid profile", "-", "-"), GGo(i, "complete", 11)>>
    [] k = 19 -> <<GAuthz(i, "code token", "consent", "openid profile", "-", "-"), GGo(i, "complete", 12)>>
    [] k = 20 -> <<GAuthz(i, "code", "consent", "openid profile", "-", "-"), GGo(i, "cancel", 11)>>
    [] k = 21 -> <<[GAuthz(i, "code", "login", "openid profile", "-", "-") EXCEPT !.env.login = FALSE], GGo(i, "complete", 11)>>
    [] k = 22 -> <<GAt(T0 + i, ResStep(0, "gat1"))>>
    \* of a grant and what comes of it, one under each registration
    [] k = 23 -> <<GPost(CredOk, i, GCode(i)), GAt(T0 + i, ResStep(0, N3("AT-", i)))>>
    [] k = 24 -> <<GPost(CredOk, i, GCode(i)), GPost(CredOk, i, <<<<"grant_type", "refresh_token">>, <<"refresh_token", N3("RT-", 2 * i - 1)>>>>)>>
    [] k = 25 -> <<GAuthz(i, "code", "-", Full, "-", "-"), GPost(CredOk, i, <<<<"grant_type", "authorization_code">>, <<"redirect_uri", "https://c1.example/cb">>, <<"code", N3("CODE-", i)>>>>)>>
    [] OTHER -> <<GPost(CredOk, i, GCode(1))>>
Swap(l) == <<l[2], l[1]>> \o SubSeq(l, 3, Len(l))
GChanges == 37
GChange(c, w) ==
  CASE c = 1 -> [w EXCEPT !.clients[1].secret = "s1new"]
    [] c = 2 -> [w EXCEPT !.clients[1].grants = <<>>]
    [] c = 3 -> [w EXCEPT !.clients[1].grants = <<"refresh_token", "client_credentials">>]
    [] c = 4 -> [w EXCEPT !.clients[1].flows = <<>>]
    [] c = 5 -> [w EXCEPT !.clients[1].flows = <<"code">>]
    [] c = 6 -> [w EXCEPT !.clients[1].scopes = Scopes(<<"openid">>)]
    [] c = 7 -> [w EXCEPT !.clients[1].scopes = Scopes(<<>>)]
    [] c = 8 -> [w EXCEPT !.clients[1].ruris = <<"https://c1.example/other">>]
    [] c = 9 -> [w EXCEPT !.clients[1].akeys = <<>>]
    [] c = 10 -> [w EXCEPT !.clients[1].akeys = <<[alg |-> "HS256", kid |-> "k1", key |-> "hs:bk1"], [alg |-> "RS256", kid |-> "k2", key |-> "rsa2"], [alg |-> "ES256", kid |-> "k3", key |-> "ec2"]>>]
    [] c = 11 -> [w EXCEPT !.clients[1].akeys = <<[alg |-> "HS512", kid |-> "k1", key |-> "hs:ak1"], [alg |-> "RS256", kid |-> "k9", key |-> "rsa1"]>>]
    [] c = 12 -> [w EXCEPT !.clients[1].idkey = "hs:ik2"]
    [] c = 13 -> [w EXCEPT !.clients[1].idalg = "RS256", !.clients[1].idkid = "rk", !.clients[1].idkey = "rsa1"]
    [] c = 14 -> [w EXCEPT !.clients[1].idkid = "other-kid"]
    [] c = 15 -> [w EXCEPT !.clients[1].idalg = "HS512"]
    [] c = 16 -> [w EXCEPT !.clients[1].idkey = "nil"]
    [] c = 17 -> [w EXCEPT !.clients[1].noconsent = "force"]
    [] c = 18 -> [w EXCEPT !.clients[1].none = "forbidden"]
    [] c = 19 -> [w EXCEPT !.clients[1].none = "idhint"]
    [] c = 20 -> [w EXCEPT !.clients[1].none = "loginhint"]
    [] c = 21 -> [w EXCEPT !.clients[1].owner = 12]
    [] c = 22 -> [w EXCEPT !.clients[1].owner = -1]
    [] c = 23 -> [w EXCEPT !.clients = Tail(@)]
    [] c = 24 -> [w EXCEPT !.clients = <<[@[2] EXCEPT !.id = "c1"], [@[1] EXCEPT !.id = "c2"]>> \o SubSeq(@, 3, 4)]
    [] c = 25 -> [w EXCEPT !.clients = Swap(@)]
    [] c = 26 -> [w EXCEPT !.users[1].pass = "pw1new"]
    [] c = 27 -> [w EXCEPT !.users[1].uid = 12, !.users[2].uid = 11]
    [] c = 28 -> [w EXCEPT !.users[1].sub = "bob-sub", !.users[2].sub = "alice-sub"]
    [] c = 29 -> [w EXCEPT !.users = Tail(@)]
    [] c = 30 -> [w EXCEPT !.issuer = "https://new.example/"]
    [] c = 31 -> [w EXCEPT !.tok.attl = 17, !.tok.rttl = 18]
    [] c = 32 -> [w EXCEPT !.tok.rtpol = "never"]
    [] c = 33 -> [w EXCEPT !.tok.rotate = "drop"]
    [] c = 34 -> [w EXCEPT !.tok.idttl = 5]
    [] c = 35 -> [w EXCEPT !.tok.scpol = "first"]
    [] c = 36 -> [w EXCEPT !.users[1].name = "alice2", !.users[2].name = "alice"]
    [] OTHER -> w
GOrders == <<<<FALSE, TRUE, FALSE>>, <<TRUE, FALSE, TRUE>>>>
(* none: which of the policies for prompt=none; the order is over the times,  *)
(* or over the single requests                                               *)
ChangeSc(k, c, none, ord, flat) ==
  LET w == [GWorld EXCEPT !.clients[1].none = none]
      s(i) == LET l == GKind(k, i) IN [j \in DOMAIN l |-> [l[j] EXCEPT !.alt = GOrders[ord][IF flat THEN 1 + ((i + j) % 2) ELSE i]]]
  IN [Sc("change", w, GStore, s(1) \o s(2) \o s(3)) EXCEPT !.w2 = GChange(c, w)]
Changes ==
  LET one(k, none) == {<<k, c, none, o, FALSE>> : c \in 1..GChanges, o \in 1..2}
                      \cup (IF Len(GKind(k, 1)) = 1 THEN {} ELSE {<<k, c, none, o, TRUE>> : c \in 1..GChanges, o \in 1..2})
      all == SetToSeq(UNION {one(k, "session") : k \in 1..GKinds} \cup UNION {one(k, n) : k \in {15, 16}, n \in {"idhint", "loginhint"}})
  IN [x \in DOMAIN all |-> ChangeSc(all[x][1], all[x][2], all[x][3], all[x][4], all[x][5])]

(* ------------------------------------------------------------------- wall   *)
(* The endpoints are made at T0; their first request comes three seconds      *)
(* later.  Every limit is two seconds or more away.                           *)
WNow == T0 + 3
WStore == [Store0 EXCEPT
  !.sess = <<[Sess("w1", 1) EXCEPT !.created = T0, !.ttl = 1, !.authTime = T0], [Sess("w2", 1) EXCEPT !.created = T0, !.ttl = 60, !.authTime = T0],
             [Sess("w3", 1) EXCEPT !.created = T0, !.ttl = 0, !.authTime = T0], [Sess("w4", 1) EXCEPT !.created = T0 - 100, !.ttl = 60, !.authTime = T0]>>,
  !.toks = <<[Tok("wat1", "wrt1", 1) EXCEPT !.created = T0, !.refreshed = T0, !.attl = 1, !.rttl = 1],
             [Tok("wat2", "wrt2", 1) EXCEPT !.created = T0, !.refreshed = T0, !.attl = 60, !.rttl = 60],
             [Tok("wat3", "wrt3", 1) EXCEPT !.created = T0 - 1000, !.refreshed = T0, !.attl = 60, !.rttl = 60],
             [Tok("wat4", "wrt4", 1) EXCEPT !.created = T0 - 1000, !.refreshed = T0 - 1000, !.attl = 60, !.rttl = 60]>>]
WCode(n, code) == GAt(WNow + n, GPost(CredOk, 0, <<<<"grant_type", "authorization_code">>, <<"redirect_uri", "https://c1.example/cb">>, <<"code", code>>>>))
WRef(n, rt) == GAt(WNow + n, GPost(CredOk, 0, <<<<"grant_type", "refresh_token">>, <<"refresh_token", rt>>>>))
WRes(n, at) == GAt(WNow + n, ResStep(0, at))
WClaims(exp, iat, nbf) == <<Cl("exp", "i", exp)>> \o (IF iat = 0 THEN <<>> ELSE <<Cl("iat", "i", iat)>>) \o (IF nbf = 0 THEN <<>> ELSE <<Cl("nbf", "i", nbf)>>)
WJa(n, exp, iat, nbf, jti) == GAt(WNow + n, GJa(0, [JaOk EXCEPT !.claims = <<@[1], @[2], Cl("jti", "s", jti)>> \o WClaims(exp, iat, nbf)]))
WCa(n, exp, iat, nbf, jti) == GAt(WNow + n, GByAssert(0, [CA("c1", "k1", "hs:ak1", jti) EXCEPT !.claims = SubSeq(@, 1, 3) \o <<Cl("jti", "s", jti)>> \o WClaims(exp, iat, nbf)],
                                                        <<<<"grant_type", "client_credentials">>, <<"scope", "profile">>>>))
WAuthz(n, rt, maxage, at, prompt, exp) ==
  LET s == GAuthz(0, rt, prompt, Full, IF prompt = "none" THEN "$hint" ELSE "-", "-")
  IN [s EXCEPT !.now = WNow + n, !.env.at = at, !.rq.q = @ \o Ps(<<<<"max_age", maxage>>>>), !.rq.hint = IF prompt = "none" THEN [HintOk EXCEPT !.claims[4] = Cl("exp", "i", exp)] ELSE NoJwt]
(* consent given at T0 - 98 is good for 100 seconds and no longer             *)
WWorld == [World0 EXCEPT !.te.secret = "all", !.te.assertion = TRUE, !.clients[1].none = "idhint"]
WSc(w, steps) == [Sc("wall", w, WStore, steps) EXCEPT !.conc = "wall"]
WOmit(n) == [WWorld EXCEPT !.pol.omission = n]
Wall == <<
  WSc(WWorld, <<WCode(0, "w1"), WCode(1, "w2")>>), WSc(WWorld, <<WCode(0, "w2"), WRes(1, "AT-1")>>), WSc(WWorld, <<WCode(0, "w3"), WCode(0, "w4"), WCode(0, "w2")>>),
  WSc(WWorld, <<WCode(3, "w1"), WCode(3, "w2")>>), WSc([WWorld EXCEPT !.tok.attl = 1], <<WCode(0, "w2"), WRes(0, "AT-1"), WRes(4, "AT-1")>>),
  WSc(WWorld, <<WRef(0, "wrt1"), WRef(0, "wrt2"), WRef(0, "wrt3"), WRef(0, "wrt4")>>), WSc([WWorld EXCEPT !.tok.rttl = 1], <<WRef(0, "wrt2"), WRef(4, "RT-1"), WRef(4, "wrt3")>>),
  WSc(WWorld, <<WRes(0, "wat1"), WRes(0, "wat2"), WRes(0, "wat3"), WRes(0, "wat4"), WRes(1, "wat2")>>),
  WSc(WWorld, <<WJa(0, T0 + 1, 0, 0, "jw1"), WJa(0, T0 + 60, T0 + 1, T0 + 1, "jw2"), WJa(0, T0 + 60, T0 + 60, 0, "jw3"), WJa(0, T0 + 60, 0, T0 + 60, "jw4")>>),
  WSc(WWorld, <<WCa(0, T0 + 1, 0, 0, "jw1"), WCa(0, T0 + 60, T0 + 1, T0 + 1, "jw2"), WCa(0, T0 + 60, T0 + 60, 0, "jw3"), WCa(0, T0 + 60, 0, T0 + 60, "jw4")>>),
  WSc(WOmit(1000), <<WAuthz(0, "code", "1", T0, "-", 0), WAuthz(0, "code", "60", T0, "-", 0), WAuthz(1, "id_token token", "60", T0, "-", 0)>>),
  WSc(WOmit(1000), <<WAuthz(0, "code", "-", T0, "none", T0 + 1), WAuthz(0, "code", "-", T0, "none", T0 + 60), WAuthz(1, "code id_token token", "-", T0, "none", T0 + 60)>>),
  WSc(WOmit(101), <<WAuthz(0, "code", "-", T0, "-", 0)>>), WSc(WOmit(105), <<WAuthz(0, "code", "-", T0, "-", 0), WAuthz(4, "code", "-", T0, "-", 0)>>),
  WSc(WOmit(101), <<WAuthz(0, "code id_token", "-", T0, "none", T0 + 60)>>), WSc(WOmit(105), <<WAuthz(0, "code id_token token", "-", T0, "none", T0 + 60)>>),
  WSc([WOmit(1000) EXCEPT !.pol.codeTTL = 1, !.pol.idTTL = 5], <<WAuthz(0, "code id_token token", "-", T0, "-", 0), WCode(4, "CODE-1"), WRes(4, "AT-1")>>),
  WSc(WWorld, <<WAuthz(0, "code token", "-", T0, "consent", 0), [GGo(1, "complete", 11) EXCEPT !.now = WNow + 1, !.env.at = T0 + 2], WCode(2, "CODE-1"), WRes(2, "AT-1")>>)>>
=============================================================================
