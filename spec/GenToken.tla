------------------------------ MODULE GenToken ------------------------------
(* Scenario families of the token endpoint.                                  *)
EXTENDS GenBase

(* credentials: <<auth header, te.secret, te.assertion, body params, query params, client assertion>> *)
CA(c, kid, key, jti) == [form |-> "ok", alg |-> "HS256", kid |-> kid, key |-> key, smeth |-> "",
  claims |-> <<Cl("sub", "s", c), Cl("iss", "s", c), Cl("aud", "s", World0.issuer), Cl("exp", "i", T0 + 300), Cl("iat", "i", T0 - 10), Cl("jti", "s", jti)>>]
CAParams == <<<<"client_assertion", "$ca">>, <<"client_assertion_type", JWTB>>>>
SecP(i, s) == <<<<"client_id", i>>, <<"client_secret", s>>>>
Cred(h, sec, as, b, q, ca) == [h |-> h, sec |-> sec, as |-> as, b |-> b, q |-> q, ca |-> ca]
CredOk == Cred(Hdr("basic", "c1", "s1"), "header", FALSE, <<>>, <<>>, NoJwt)

(* every way to present a client's credentials                               *)
AuthDims == <<
  CredOk,
  Cred(Hdr("basic", "c1", "s1"), "all", TRUE, <<>>, <<>>, NoJwt),
  Cred(Hdr("basiclc", "c1", "s1"), "header", FALSE, <<>>, <<>>, NoJwt), Cred(Hdr("basicuc", "c1", "s1"), "post", FALSE, <<>>, <<>>, NoJwt), Cred(Hdr("basicuc", "c1", "s2"), "all", FALSE, SecP("c1", "s1"), <<>>, NoJwt),
  Cred(Hdr("basic", "c1", "s2"), "header", FALSE, <<>>, <<>>, NoJwt),
  Cred(Hdr("basic", "c1", ""), "header", FALSE, <<>>, <<>>, NoJwt),
  Cred(Hdr("basic", "c1", "s1x"), "header", FALSE, <<>>, <<>>, NoJwt),
  Cred(Hdr("basic", "c1", "S1"), "header", FALSE, <<>>, <<>>, NoJwt),
  Cred(Hdr("basic", "", "s1"), "header", FALSE, <<>>, <<>>, NoJwt),
  Cred(Hdr("basic", "c1", ""), "post", FALSE, SecP("c1", "s1"), <<>>, NoJwt),
  Cred(Hdr("basic", "", ""), "post", FALSE, SecP("c1", "s1"), <<>>, NoJwt),
  Cred(Hdr("basic", "", "s1"), "all", FALSE, <<>>, SecP("c1", "s1"), NoJwt),
  Cred(Hdr("basic", "c1", ""), "header", TRUE, CAParams, <<>>, CA("c1", "k1", "hs:ak1", "jA")),
  Cred(Hdr("basic", "", ""), "header", TRUE, CAParams, <<>>, CA("c1", "k1", "hs:ak1", "jA")),
  Cred(Hdr("basic", "c1", ""), "post", TRUE, CAParams \o SecP("c1", "s1"), <<>>, CA("c1", "k1", "hs:ak1", "jA")),
  Cred(NoAuth, "post", TRUE, CAParams \o SecP("c1", "bad"), <<>>, CA("c1", "k1", "hs:ak1", "jA")),
  Cred(NoAuth, "post", TRUE, CAParams \o SecP("c1", ""), <<>>, CA("c1", "k1", "hs:ak1", "jA")),
  Cred(NoAuth, "post", TRUE, CAParams \o SecP("c2", "s2"), <<>>, CA("c1", "k1", "hs:ak1", "jA")),
  Cred(Hdr("basic", "cX", "s1"), "header", FALSE, <<>>, <<>>, NoJwt),
  Cred(Hdr("basic", "c2", "s2"), "header", FALSE, <<>>, <<>>, NoJwt),
  Cred(Hdr("basic", "c2", "s1"), "header", FALSE, <<>>, <<>>, NoJwt),
  Cred(Hdr("basic", "c:3 x", "p@s+s:%/&~00E9~"), "header", FALSE, <<>>, <<>>, NoJwt),
  Cred(Hdr("basic", "C1", "sC"), "header", FALSE, <<>>, <<>>, NoJwt),
  Cred(Hdr("basic", "C1", "s1"), "header", FALSE, <<>>, <<>>, NoJwt),
  Cred(Hdr("basic", "c1", "sC"), "header", FALSE, <<>>, <<>>, NoJwt),
  Cred(Hdr("basic", "c:3 x", "p@s"), "post", FALSE, <<>>, <<>>, NoJwt),
  Cred(Hdr("badbasic", "", ""), "header", FALSE, <<>>, <<>>, NoJwt),
  Cred(Hdr("nocolon", "c1", ""), "header", TRUE, <<>>, <<>>, NoJwt),
  Cred(Hdr("bearer", "", "s1"), "header", FALSE, <<>>, <<>>, NoJwt),
  Cred(Hdr("rawtok", "", "s1"), "all", FALSE, <<>>, <<>>, NoJwt),
  Cred(NoAuth, "header", FALSE, <<>>, <<>>, NoJwt),
  Cred(NoAuth, "post", FALSE, <<>>, <<>>, NoJwt),
  Cred(NoAuth, "all", TRUE, <<>>, <<>>, NoJwt),
  Cred(NoAuth, "header", FALSE, SecP("c1", "s1"), <<>>, NoJwt),
  Cred(NoAuth, "header", FALSE, <<>>, SecP("c1", "s1"), NoJwt),
  Cred(NoAuth, "header", TRUE, SecP("c1", "s1"), <<>>, NoJwt),
  Cred(NoAuth, "post", FALSE, SecP("c1", "s1"), <<>>, NoJwt),
  Cred(NoAuth, "post", TRUE, SecP("c1", "s1"), <<>>, NoJwt),
  Cred(NoAuth, "post", FALSE, <<>>, SecP("c1", "s1"), NoJwt),
  Cred(NoAuth, "post", FALSE, <<<<"client_id", "c1">>>>, <<<<"client_secret", "s1">>>>, NoJwt),
  Cred(NoAuth, "post", FALSE, SecP("c1", "s2"), <<>>, NoJwt),
  Cred(NoAuth, "post", FALSE, SecP("c1", "s"), <<>>, NoJwt),
  Cred(NoAuth, "post", FALSE, SecP("cX", "s1"), <<>>, NoJwt),
  Cred(NoAuth, "post", FALSE, SecP("c1", "-"), <<>>, NoJwt),
  Cred(NoAuth, "post", FALSE, SecP("-", "s1"), <<>>, NoJwt),
  Cred(NoAuth, "post", FALSE, SecP("c:3 x", "p@s+s:%/&~00E9~"), <<>>, NoJwt),
  Cred(NoAuth, "post", FALSE, SecP("c2", "s2"), <<>>, NoJwt),
  Cred(NoAuth, "all", FALSE, SecP("c1", "s1"), <<>>, NoJwt),
  Cred(NoAuth, "all", FALSE, <<>>, SecP("c1", "s1"), NoJwt),
  Cred(NoAuth, "all", FALSE, <<<<"client_id", "c1">>>>, <<<<"client_secret", "s1">>>>, NoJwt),
  Cred(NoAuth, "all", FALSE, <<>>, SecP("c1", "s2"), NoJwt),
  Cred(NoAuth, "all", FALSE, <<>>, SecP("cX", "s1"), NoJwt),
  \* a header that carries no credentials leaves the parameters in charge
  Cred(Hdr("bearer", "", "s1"), "post", FALSE, SecP("c1", "s1"), <<>>, NoJwt),
  Cred(Hdr("bearer", "", "s1"), "post", FALSE, SecP("c1", "s2"), <<>>, NoJwt),
  Cred(Hdr("bearer", "", "s1"), "all", FALSE, <<>>, SecP("cX", "s1"), NoJwt),
  Cred(Hdr("badbasic", "", ""), "post", FALSE, SecP("c1", "s2"), <<>>, NoJwt),
  Cred(Hdr("badbasic", "", ""), "all", FALSE, <<>>, SecP("c1", "s1"), NoJwt),
  Cred(Hdr("rawtok", "", "s1"), "post", FALSE, SecP("cX", "s1"), <<>>, NoJwt),
  Cred(Hdr("nocolon", "c1", ""), "all", FALSE, SecP("c1", "s2"), <<>>, NoJwt),
  Cred(Hdr("bearer", "", "s1"), "header", TRUE, CAParams, <<>>, CA("c1", "k1", "hs:ak1", "jA")),
  \* the header takes precedence, in both directions
  Cred(Hdr("basic", "c1", "s1"), "all", FALSE, SecP("c2", "s2"), <<>>, NoJwt),
  Cred(Hdr("basic", "c1", "s1"), "post", FALSE, SecP("c1", "wrong"), <<>>, NoJwt),
  Cred(Hdr("basic", "c1", "bad"), "post", FALSE, SecP("c1", "s1"), <<>>, NoJwt),
  Cred(Hdr("basic", "c1", "bad"), "all", FALSE, <<>>, SecP("c1", "s1"), NoJwt),
  Cred(Hdr("basic", "cX", "s1"), "all", FALSE, SecP("c1", "s1"), <<>>, NoJwt),
  Cred(Hdr("basic", "c1", "bad"), "header", TRUE, CAParams, <<>>, CA("c1", "k1", "hs:ak1", "jA")),
  Cred(Hdr("basic", "c2", "s2"), "header", TRUE, CAParams, <<>>, CA("c1", "k1", "hs:ak1", "jA")),
  \* client assertions
  Cred(NoAuth, "header", TRUE, CAParams, <<>>, CA("c1", "k1", "hs:ak1", "jA")),
  Cred(NoAuth, "header", TRUE, <<>>, CAParams, CA("c1", "k1", "hs:ak1", "jA")),
  Cred(NoAuth, "header", FALSE, CAParams, <<>>, CA("c1", "k1", "hs:ak1", "jA")),
  Cred(NoAuth, "all", FALSE, CAParams, <<>>, CA("c1", "k1", "hs:ak1", "jA")),
  Cred(NoAuth, "post", TRUE, CAParams, <<>>, CA("c1", "k1", "hs:ak1", "jA")),
  Cred(NoAuth, "header", TRUE, CAParams, <<>>, CA("c2", "k1", "hs:bk1", "jA")),
  Cred(NoAuth, "header", TRUE, CAParams, <<>>, CA("c1", "k1", "hs:bk1", "jA")),
  Cred(NoAuth, "header", TRUE, CAParams, <<>>, CA("c2", "k1", "hs:ak1", "jA")),
  Cred(NoAuth, "header", TRUE, CAParams, <<>>, CA("cX", "k1", "hs:ak1", "jA")),
  Cred(NoAuth, "header", TRUE, <<<<"client_assertion", "$ca">>>>, <<>>, CA("c1", "k1", "hs:ak1", "jA")),
  Cred(NoAuth, "header", TRUE, <<<<"client_assertion", "$ca">>, <<"client_assertion_type", "urn:ietf:params:oauth:client-assertion-type:saml2-bearer">>>>, <<>>, CA("c1", "k1", "hs:ak1", "jA")),
  Cred(NoAuth, "header", TRUE, <<<<"client_assertion_type", JWTB>>>>, <<>>, NoJwt),
  Cred(NoAuth, "post", TRUE, CAParams \o <<<<"client_id", "c1">>>>, <<>>, CA("c1", "k1", "hs:ak1", "jA")),
  Cred(NoAuth, "post", FALSE, <<<<"client_secret", "s1">>>>, <<<<"client_id", "c1">>>>, NoJwt),
  Cred(NoAuth, "all", FALSE, <<<<"client_secret", "s1">>>>, <<<<"client_id", "c1">>>>, NoJwt),
  Cred(NoAuth, "header", FALSE, <<<<"client_secret", "s1">>>>, <<<<"client_id", "c1">>>>, NoJwt),
  Cred(NoAuth, "header", TRUE, <<<<"client_assertion", "$ca">>>>, <<<<"client_assertion_type", JWTB>>>>, CA("c1", "k1", "hs:ak1", "jA"))>>
(* a short list, for families about something else                           *)
AuthFew == SelectSeq(AuthDims, LAMBDA x :
  \/ x = CredOk
  \/ x.h = Hdr("basic", "c2", "s2") /\ ~x.as
  \/ x.h = Hdr("basic", "c1", "s2")
  \/ x.h = Hdr("basic", "C1", "sC")
  \/ x.h.kind = "none" /\ x.sec = "post" /\ ~x.as /\ x.b = SecP("c1", "s1")
  \/ x.h.kind = "none" /\ x.sec = "all" /\ ~x.as /\ x.q = SecP("c1", "s1")
  \/ x.h.kind = "none" /\ x.sec = "header" /\ ~x.as /\ x.b = <<>> /\ x.q = <<>>
  \/ x.h.kind = "none" /\ x.as /\ x.b = CAParams /\ x.sec = "header" /\ x.ca.key = "hs:ak1" /\ ClaimStr(x.ca, "sub") = "c1"
  \/ x.h.kind = "none" /\ x.as /\ x.b = CAParams /\ x.sec = "header" /\ x.ca.key = "hs:bk1" /\ ClaimStr(x.ca, "sub") = "c2")

Faults(l) == <<NoFault>> \o l
Ft(m, k) == [m |-> m, kind |-> k, n |-> 0]
All4(m) == <<Ft(m, "unsupported"), Ft(m, "server"), Ft(m, "failed"), Ft(m, "nil")>>
All3(m) == <<Ft(m, "unsupported"), Ft(m, "server"), Ft(m, "failed")>>

(* a world for a credential choice and the other world dimensions            *)
TW(cr, lack, euri, c1, tok) ==
  [World0 EXCEPT !.te.secret = cr.sec, !.te.assertion = cr.as, !.te.euri = euri,
     !.te.grants = IF lack.te = "" THEN @ ELSE SelectSeq(@, LAMBDA g : g # lack.te),
     !.clients[1] = [c1 EXCEPT !.grants = IF lack.cl = "" THEN @ ELSE SelectSeq(@, LAMBDA g : g # lack.cl)],
     !.tok = tok]
Lack(te, cl) == [te |-> te, cl |-> cl]
EuriDim == <<"none", "fixed", "bytype">>
LackDim(g) == <<Lack("", ""), Lack(g, ""), Lack("", g), Lack(g, g)>>

(* transport: where the grant parameters travel                              *)
TRq(m, tr, cr, gps, ja) ==
  LET ps == Ps(gps) half == Len(ps) \div 2
  IN [Rq0 EXCEPT !.m = m, !.auth = cr.h, !.ca = cr.ca, !.ja = ja,
       !.b = Ps(cr.b) \o (CASE tr = "body" -> ps [] tr = "query" -> <<>> [] OTHER -> SubSeq(ps, 1, half)),
       !.q = Ps(cr.q) \o (CASE tr = "body" -> <<>> [] tr = "query" -> ps [] OTHER -> SubSeq(ps, half + 1, Len(ps)))]
TrDim == <<"body", "query", "split">>
MethDim == <<"POST", "GET", "PUT", "HEAD">>
TStep(now, rq, fault) == [Step0 EXCEPT !.now = now, !.rq = rq, !.fault = fault]

(* ----------------------------------------------------------- family: code *)
Long == "dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk"
(* <<verifier of the session, challenge method, challenge>>                   *)
PkceDim == <<
  <<"", "-", "-">>, <<"", "S256", "junk">>, <<"", "-", "junk">>, <<"", "bogus", "junk">>,
  <<"verif-1", "plain", "verif-1">>, <<"verif-1", "S256", S256("verif-1")>>,
  <<Long, "S256", S256(Long)>>, <<"a", "S256", S256("a")>>, <<"a", "plain", "a">>, <<"v w+x", "plain", "v w+x">>,
  <<"v w+x", "S256", S256("v w+x")>>, <<"xx>>??yy", "S256", S256("xx>>??yy")>>, <<"V2", "S256", S256("V2")>>,
  <<"verif-1", "plain", "verif-2">>, <<"verif-1", "plain", "verif-">>, <<"verif-1", "plain", "VERIF-1">>, <<"verif-1", "plain", "verif-1x">>,
  <<"verif-1", "plain", S256("verif-1")>>, <<"verif-1", "S256", "verif-1">>, <<"verif-1", "S256", S256("a")>>,
  <<"verif-1", "S256", S256("verif-1") \o "=">>, <<"verif-1", "S256", "3c3swjlklykxty2_fmouuk97bi_h9mmqehiavognxee">>,
  <<"verif-1", "-", "verif-1">>, <<"verif-1", "", "verif-1">>, <<"verif-1", "plain", "-">>, <<"verif-1", "S256", "-">>, <<"verif-1", "plain", "">>,
  <<"verif-1", "-", "-">>, <<"verif-1", "s256", S256("verif-1")>>, <<"verif-1", "PLAIN", "verif-1">>, <<"verif-1", "S512", "verif-1">>,
  <<"verif-1", "none", "verif-1">>, <<"verif-1", "S256 ", S256("verif-1")>>,
  <<Verifier128, "plain", Verifier128>>, <<Verifier128, "S256", S256(Verifier128)>>, <<Verifier128, "plain", SubSeq(Verifier128, 1, 127)>>,
  <<Verifier128, "plain", SubSeq(Verifier128, 1, 127) \o "w">>, <<Verifier128, "plain", SubSeq(Verifier128, 1, 64) \o Dbl("0123456789ABCDEF", 2)>>, <<Verifier128, "plain", SubSeq(Verifier128, 1, 43) \o Dbl("x", 6) \o Dbl("y", 4) \o "zzzzz">>,
  <<Verifier128, "plain", "X" \o SubSeq(Verifier128, 2, 128)>>, <<Verifier128, "plain", SubSeq(Verifier128, 1, 43)>>,
  <<Long, "S256", SubSeq(S256(Long), 1, 42) \o "N">>, <<Long, "S256", "e" \o SubSeq(S256(Long), 2, 43)>>, <<Long, "S256", SubSeq(S256(Long), 1, 22) \o SubSeq(S256("a"), 23, 43)>>,
  <<Long, "S256", S256(Long) \o "x">>, <<Long, "S256", SubSeq(S256(Long), 1, 42)>>, <<Long, "S256", " " \o S256(Long)>>, <<Verifier128, "S256", S256(Long)>>>>

IdDim == << \* id token alg, kid, key
  <<"HS256", "ik1", "hs:ik1">>, <<"RS256", "rk", "rsa1">>, <<"ES256", "ek", "ec1">>, <<"HS384", "ik1", "hs:ik1">>, <<"HS512", "", "hs:ik1">>,
  <<"RS512", "rk", "rsa2">>, <<"PS256", "rk", "rsa1">>, <<"RS384", "", "rsa1">>,
  <<"HS256", "ik1", "nil">>, <<"RS256", "rk", "hs:ik1">>, <<"XX999", "ik1", "hs:ik1">>, <<"HS256", "ik1", "rsa1">>, <<"RS256", "", "bad">>, <<"none", "", "hs:ik1">>>>
WithId(c, i) == [c EXCEPT !.idalg = i[1], !.idkid = i[2], !.idkey = i[3]]

Tok0 == World0.tok
(* how the store issues tokens: lifetimes, whether a refresh replaces, keeps or drops the refresh token, who gets one at all *)
TokDim == <<Tok0, [Tok0 EXCEPT !.attl = 0], [Tok0 EXCEPT !.attl = 1, !.rotate = "no"], [Tok0 EXCEPT !.attl = 100000, !.rttl = 5], [Tok0 EXCEPT !.rotate = "no"],
  [Tok0 EXCEPT !.rotate = "drop"], [Tok0 EXCEPT !.rattl = 77], [Tok0 EXCEPT !.rtpol = "always"], [Tok0 EXCEPT !.rtpol = "never"]>>
(* and the scope it grants to a direct grant: the scope asked for, less, more *)
TokDimD == TokDim \o <<[Tok0 EXCEPT !.scpol = "first"], [Tok0 EXCEPT !.scpol = "more"], [Tok0 EXCEPT !.scpol = "none"]>>

Sess(code, auth) == [code |-> code, auth |-> auth, ruri |-> "https://c1.example/cb", verifier |-> "", nonce |-> "n1", ttl |-> 60,
                     authTime |-> T0 - 50, idTTL |-> 600, created |-> T0 - 30, on |-> TRUE]
Tok(at, rt, auth) == [at |-> at, rt |-> rt, auth |-> auth, attl |-> 3600, refreshed |-> T0 - 60, rttl |-> 7200, created |-> T0 - 60, front |-> FALSE]
Full == "openid profile offline_access"
Store0 == [infos |-> <<Info(1, 11, "c1", Full), Info(2, 12, "c2", Full), Info(3, 12, "c1", "profile"), Info(4, 11, "c2", "read")>>,
  sess |-> <<[Sess("sc2", 2) EXCEPT !.ruri = "https://c2.example/cb"], [Sess("scoff", 1) EXCEPT !.on = FALSE], Sess("sc1", 1)>>,
  toks |-> <<Tok("sat2", "srt2", 2), Tok("sat1", "srt1", 1), [Tok("sat3", "", 3) EXCEPT !.front = TRUE]>>,
  jtis |-> <<[cid |-> "c1", jti |-> "jOld"], [cid |-> "c2", jti |-> "jOther"]>>, pend |-> <<>>]

(* now, created, ttl of the code                                             *)
CodeAge == <<<<T0, T0 - 30, 60>>, <<T0, T0 - 60, 60>>, <<T0, T0 - 61, 60>>, <<T0, T0 - 59, 60>>, <<T0, T0, 60>>, <<T0, T0, 0>>, <<T0, T0 - 1, 0>>,
  <<T0, T0 - 100000, 60>>, <<T0, T0 - 100000, 200000>>, <<T0, T0 + 5, 60>>, <<T0, T0 - 300, 300>>, <<T0, T0 - 301, 300>>, <<T0, T0 - 601, 600>>, <<T0, T0 - 2, 1>>>>
InfoDim == <<"ok", "inactive", "absent", "c2", "c1x", "C1", "">>
InfoCid(i) == IF i \in {"c2", "c1x", "C1", ""} THEN i ELSE "c1"
ScopeDim == <<Full, "openid", "profile", "", "offline_access", "offline_access openid", "openidx profile", "xopenid", "OPENID profile", "read write email profile openid", "profile openid">>

CodeDims == <<
  <<"cred", AuthFew>>, <<"lack", LackDim("authorization_code")>>,
  <<"code", <<"sc1", "-", "", "nope", "scoff", "sc2", "SC1", "sc1 ", "sc">>>>,
  <<"ruri", <<"https://c1.example/cb", "-", "", "https://c1.example/CB", "https://c1.example/cb/", "https://c1.example/cb?x=1&y=a%20b", "https://c1.example/c",
              "https://c1.example/cb?", "https://evil.example/cb", "http://c1.example/cb", "https://c1.example/cb#f", "https://c1.example/cb ">>>>,
  <<"sruri", <<"https://c1.example/cb", "https://c1.example/cb?x=1&y=a%20b">>>>,
  <<"pkce", PkceDim>>, <<"age", CodeAge>>, <<"info", InfoDim>>, <<"scope", ScopeDim>>,
  <<"nonce", <<"n1", "", "n~00E9~&=+ x", " n 2 ", Verifier128>>>>, <<"authtime", <<T0 - 50, 0, T0, 1>>>>, <<"id", IdDim>>, <<"idttl", <<600, 0, 1, 86400>>>>,
  <<"tok", TokDim>>, <<"issuer", <<"https://op.example/", "https://op.example", "op">>>>, <<"euri", EuriDim>>, <<"meth", MethDim>>, <<"tr", TrDim>>,
  <<"uid", <<11, 0, 2147480000>>>>, <<"rscope", <<"-", Full, "profile", "", "same">>>>,
  <<"dup", DupDim(<<"grant_type", "code", "redirect_uri", "code_challenge", "code_challenge_method", "client_id">>)>>,
  <<"fault", Faults(All4("FindClientById") \o All4("FindAuthSessionByCode") \o All4("FindActiveAuthInfoById") \o All4("CreateOAuthToken") \o All3("DisableSession"))>>>>
CodeSc(A, a) ==
  LET v(n) == Val(A, a, n)
      cr == v("cred") pk == v("pkce") ag == v("age")
      w0 == TW(cr, v("lack"), v("euri"), WithId(Client1, v("id")), v("tok"))
      w == [w0 EXCEPT !.issuer = v("issuer")]
      inf == [Info(1, v("uid"), InfoCid(v("info")), v("scope")) EXCEPT !.active = v("info") # "inactive"]
      st == [Store0 EXCEPT !.infos = (IF v("info") = "absent" THEN <<>> ELSE <<inf>>) \o Tail(Store0.infos),
                           !.sess[3] = [@ EXCEPT !.ruri = v("sruri"), !.verifier = pk[1], !.created = ag[2], !.ttl = ag[3], !.nonce = v("nonce"),
                                                 !.authTime = v("authtime"), !.idTTL = v("idttl")]]
      gps(code, ruri) == <<<<"grant_type", "authorization_code">>, <<"redirect_uri", ruri>>, <<"code", code>>,
               <<"code_challenge_method", pk[2]>>, <<"code_challenge", pk[3]>>, <<"scope", IF v("rscope") = "same" THEN v("scope") ELSE v("rscope")>>>>
      ok == IF pk[1] = "" THEN <<"-", "-">> ELSE <<"plain", pk[1]>>
      again == <<<<"grant_type", "authorization_code">>, <<"redirect_uri", v("sruri")>>, <<"code", "sc1">>, <<"code_challenge_method", ok[1]>>, <<"code_challenge", ok[2]>>>>
  IN Sc("code", w, st, <<TStep(ag[1], Dup(TRq(v("meth"), v("tr"), cr, gps(v("code"), IF v("ruri") = "https://c1.example/cb" THEN v("sruri") ELSE v("ruri")), NoJwt), v("dup")), v("fault")),
                         TStep(ag[1], TRq("POST", "body", CredOk, again, NoJwt), NoFault),
                         ResStep(ag[1], "AT-1")>>)

(* -------------------------------------------------------- family: refresh *)
RefAge == <<<<T0, T0 - 60, T0 - 60, 7200>>, <<T0, T0 - 7200, T0 - 60, 7200>>, <<T0, T0 - 7201, T0 - 60, 7200>>, <<T0, T0 - 7201, T0 - 1, 7200>>, <<T0, T0 - 7199, T0 - 7199, 7200>>,
  <<T0, T0, T0, 0>>, <<T0, T0 - 1, T0 - 1, 0>>, <<T0, T0 - 90000, T0 - 90000, 7200>>, <<T0, T0 - 90000, T0, 7200>>, <<T0, T0 - 90000, T0 - 90000, 100000>>, <<T0, T0 + 9, T0 + 9, 60>>>>
RefreshDims == <<
  <<"cred", AuthFew>>, <<"lack", LackDim("refresh_token")>>,
  <<"rt", <<"srt1", "-", "", "nope", "srt2", "SRT1", "sat1", "srt1 ", "srt">>>>,
  <<"age", RefAge>>, <<"info", InfoDim>>,
  <<"scope", <<Full, "offline_access", "openid profile", "", "offline_accessx", "xoffline_access profile", "profile offline_access", "OFFLINE_ACCESS", "offline access", "offline_access_2 read">>>>,
  <<"rscope", <<"-", "profile", "openid profile offline_access write">>>>,
  <<"tok", TokDim>>, <<"euri", EuriDim>>, <<"meth", MethDim>>, <<"tr", TrDim>>, <<"uid", <<11, 0>>>>, <<"front", <<FALSE, TRUE>>>>, <<"dup", DupDim(<<"grant_type", "refresh_token">>)>>,
  <<"fault", Faults(All4("FindClientById") \o All4("FindOAuthTokenByRefreshToken") \o All4("FindActiveAuthInfoById") \o All4("RefreshAccessToken"))>>>>
RefreshSc(A, a) ==
  LET v(n) == Val(A, a, n)
      cr == v("cred") ag == v("age")
      w == TW(cr, v("lack"), v("euri"), Client1, v("tok"))
      inf == [Info(1, v("uid"), InfoCid(v("info")), v("scope")) EXCEPT !.active = v("info") # "inactive"]
      st == [Store0 EXCEPT !.infos = (IF v("info") = "absent" THEN <<>> ELSE <<inf>>) \o Tail(Store0.infos),
                           !.toks[2] = [@ EXCEPT !.created = ag[2], !.refreshed = ag[3], !.rttl = ag[4], !.attl = v("tok").attl, !.front = v("front")]]
      gps(rt) == <<<<"grant_type", "refresh_token">>, <<"refresh_token", rt>>, <<"scope", v("rscope")>>>>
  IN Sc("refresh", w, st, <<TStep(ag[1], Dup(TRq(v("meth"), v("tr"), cr, gps(v("rt")), NoJwt), v("dup")), v("fault")),
                            TStep(ag[1], TRq("POST", "body", CredOk, <<<<"grant_type", "refresh_token">>, <<"refresh_token", "srt1">>>>, NoJwt), NoFault),
                            ResStep(ag[1], "AT-1"), ResStep(ag[1], "sat1")>>)

(* ---------------------------------------------- family: password, client_credentials *)
DirScope == <<"profile", "-", "", "openid profile", "openid offline_access", "read write", "admin", "profile admin", "admin profile", "PROFILE", "profilex", "offline_access">>
PwDims == <<
  <<"cred", AuthFew>>, <<"lack", LackDim("password")>>,
  <<"user", <<"alice", "-", "", "bob", "ALICE", "nobody", "zero user", "big", "alice ", " alice", " pad ", "pad", "Pad">>>>,
  <<"pass", <<"pw1", "-", "", "pw2", "PW1", "pw", "p&w=3~00E9~", LongPw, SubSeq(LongPw, 1, Len(LongPw) - 1), "pw1 ", " pw1", " p w ", "p w", "p w ", "P W", "pw1~0000~", "~000A~pw1">>>>,
  <<"scope", DirScope>>, <<"perm", <<"all", "none", "few">>>>,
  <<"tok", TokDimD>>, <<"euri", EuriDim>>, <<"meth", MethDim>>, <<"tr", TrDim>>, <<"had", <<"active", "inactive", "absent">>>>, <<"dup", DupDim(<<"username", "password", "scope">>)>>,
  <<"fault", Faults(All4("FindClientById") \o All3("FindUserId") \o All4("CreateOrUpdateAuthInfo") \o All4("CreateOAuthToken"))>>>>
DirPerm(p) == CASE p = "all" -> AllScopes [] p = "none" -> <<>> [] OTHER -> <<"profile">>
HadStore(h) == [Store0 EXCEPT !.infos = IF h = "absent" THEN Tail(@) ELSE <<[@[1] EXCEPT !.active = h = "active"]>> \o Tail(@)]
DirectSc(fam, A, a, gps, c1, ja, w1) ==
  LET v(n) == Val(A, a, n)
      w == [TW(v("cred"), v("lack"), v("euri"), [c1 EXCEPT !.scopes.direct = DirPerm(v("perm"))], v("tok")) EXCEPT !.issuer = w1]
  IN Sc(fam, w, HadStore(v("had")), <<TStep(T0, Dup(TRq(v("meth"), v("tr"), v("cred"), gps, ja), v("dup")), v("fault")), ResStep(T0, "AT-1"), ResStep(T0, "sat1"),
        TStep(T0 + 1, TRq("POST", "body", CredOk, <<<<"grant_type", "refresh_token">>, <<"refresh_token", "RT-1">>>>, NoJwt), NoFault)>>)
PwSc(A, a) == DirectSc("password", A, a, <<<<"grant_type", "password">>, <<"username", Val(A, a, "user")>>, <<"password", Val(A, a, "pass")>>, <<"scope", Val(A, a, "scope")>>>>, Client1, NoJwt, World0.issuer)

CcDims == <<
  <<"cred", AuthFew>>, <<"lack", LackDim("client_credentials")>>,
  <<"owner", <<11, 0, -1, 2147480000, 99>>>>,
  <<"scope", DirScope>>, <<"perm", <<"all", "none", "few">>>>, <<"user", <<"-", "bob">>>>,
  <<"tok", TokDimD>>, <<"euri", EuriDim>>, <<"meth", MethDim>>, <<"tr", TrDim>>, <<"had", <<"active", "inactive", "absent">>>>, <<"dup", DupDim(<<"grant_type", "scope">>)>>,
  <<"fault", Faults(All4("FindClientById") \o All4("CreateOrUpdateAuthInfo") \o All4("CreateOAuthToken"))>>>>
CcSc(A, a) == DirectSc("clientcred", A, a, <<<<"grant_type", "client_credentials">>, <<"scope", Val(A, a, "scope")>>, <<"username", Val(A, a, "user")>>>>,
                       [Client1 EXCEPT !.owner = Val(A, a, "owner")], NoJwt, World0.issuer)

(* ------------------------------------------------------ assertions, jwt grant *)
FormDim == <<"ok", "garbage", "twoparts", "badjson", "badbody", "noalg", "bearer", "tampered", "nosig", "cutsig">>
(* header alg, kid, signing key, method actually used                         *)
SigDim == <<<<"HS256", "k1", "hs:ak1", "">>, <<"RS256", "k2", "rsa1", "">>, <<"ES256", "k3", "ec1", "">>, <<"HS512", "", "hs:ak4", "">>,
  <<"HS256", "k1", "hs:bk1", "">>, <<"HS256", "k1", "hs:ak", "">>, <<"RS256", "k2", "rsa2", "">>, <<"ES256", "k3", "ec2", "">>,
  <<"none", "", "none", "">>, <<"none", "k1", "none", "">>, <<"HS256", "k1", "none", "">>, <<"HS256", "k2", "pubpem:rsa1", "">>, <<"HS256", "k1", "pubpem:rsa1", "">>,
  <<"RS256", "k1", "rsa1", "">>, <<"HS256", "", "hs:ak1", "">>, <<"HS256", "kX", "hs:ak1", "">>, <<"HS512", "k1", "hs:ak1", "">>, <<"XX999", "k1", "hs:ak1", "">>,
  <<"HS384", "k1", "hs:ak1", "">>, <<"HS256", "k1", "hs:ak1", "HS512">>, <<"RS512", "k2", "rsa1", "">>, <<"PS256", "k2", "rsa1", "">>, <<"hs256", "k1", "hs:ak1", "HS256">>>>
ExpDim == << <<"i", T0 + 300>>, <<"i", T0>>, <<"i", T0 - 1>>, <<"i", T0 + 1>>, <<"i", 0>>, <<"i", -5>>, <<"i", 1>>, <<"i", T0 - 100000>>, <<"i", 2147480000>>,
  <<"f", T0>>, <<"f", T0 - 1>>, <<"f", T0 + 5>>, <<"si", T0 + 300>>, <<"b", 1>>, <<"null", 0>>, <<"-", 0>>>>
IatDim == << <<"i", T0 - 10>>, <<"-", 0>>, <<"i", T0>>, <<"i", T0 + 1>>, <<"i", T0 + 1000>>, <<"i", 0>>, <<"f", T0 - 10>>, <<"i", 5>>>>
NbfDim == << <<"-", 0>>, <<"i", T0>>, <<"i", T0 + 1>>, <<"i", T0 - 10>>, <<"i", T0 + 5000>>>>
JtiDim == << <<"s", "jNew">>, <<"s", "jOld">>, <<"s", "jOther">>, <<"s", "JOLD">>, <<"-", "">>, <<"s", "">>, <<"i", 7>>, <<"s", LongPw \o LongURI \o Verifier128>>, <<"s", " jOld">>, <<"s", "j~00E9~ \"w\\">>>>
AudDim == << <<"iss", "">>, <<"s", "https://op.example">>, <<"s", "https://evil.example/">>, <<"s", "">>, <<"-", "">>, <<"i", 7>>, <<"s", "https://op.example/token">>, <<"s", "HTTPS://OP.EXAMPLE/">>>>
Opt(n, tv) == IF tv[1] = "-" THEN <<>> ELSE <<Cl(n, tv[1], tv[2])>>
JwtDesc(v(_), sub, iss) ==
  [form |-> v("form"), alg |-> v("sig")[1], kid |-> v("sig")[2], key |-> v("sig")[3], smeth |-> v("sig")[4],
   claims |-> Opt("sub", sub) \o <<Cl("iss", "s", "c1")>> \o Opt("exp", v("exp")) \o Opt("iat", v("iat")) \o Opt("nbf", v("nbf")) \o Opt("jti", v("jti"))
              \o (IF v("aud")[1] = "-" THEN <<>> ELSE <<IF v("aud")[1] = "iss" THEN Cl("aud", "s", iss) ELSE Cl("aud", v("aud")[1], v("aud")[2])>>)]
JwtDims(subs) == <<<<"form", FormDim>>, <<"sig", SigDim>>, <<"exp", ExpDim>>, <<"iat", IatDim>>, <<"nbf", NbfDim>>, <<"jti", JtiDim>>, <<"aud", AudDim>>,
             <<"sub", subs>>, <<"issuer", <<"https://op.example/", "op">>>>, <<"euri", EuriDim>>, <<"tr", TrDim>>>>

JwtGrantDims == JwtDims(<< <<"s", "alice-sub">>, <<"s", "bob-sub">>, <<"s", "nobody">>, <<"s", "">>, <<"-", "">>, <<"i", 11>>, <<"s", "zero@sub">>, <<"s", "ALICE-SUB">>, <<"s", "x\"y\\z<&>~00E9~">>, <<"b", 1>>, <<"null", 0>>>>) \o
  <<<<"cred", AuthFew>>, <<"lack", LackDim(JWTB)>>, <<"as", <<"$ja", "-", "">>>>, <<"scope", DirScope>>, <<"perm", <<"all", "none", "few">>>>, <<"tok", TokDimD>>, <<"meth", MethDim>>,
    <<"had", <<"active", "inactive", "absent">>>>, <<"dup", DupDim(<<"assertion", "scope">>)>>,
    <<"fault", Faults(All4("FindClientById") \o All3("RecordAssertionClaims") \o <<Ft("Issuer", "empty")>> \o All3("FindUserIdBySubject") \o All4("CreateOrUpdateAuthInfo") \o All4("CreateOAuthToken"))>>>>
JwtGrantSc(A, a) ==
  LET v(n) == Val(A, a, n)
      s == DirectSc("jwt", A, a, <<<<"grant_type", JWTB>>, <<"assertion", v("as")>>, <<"scope", v("scope")>>>>, Client1, JwtDesc(v, v("sub"), v("issuer")), v("issuer"))
      \* the same assertion once more: a replay if it had a jti
  IN [s EXCEPT !.steps = <<s.steps[1], TStep(T0, TRq("POST", "body", CredOk, <<<<"grant_type", JWTB>>, <<"assertion", "$ja">>>>, JwtDesc(v, v("sub"), v("issuer"))), NoFault), ResStep(T0, "AT-1")>>]

CAssertDims == JwtDims(<< <<"s", "c1">>, <<"s", "c2">>, <<"s", "cX">>, <<"s", "">>, <<"-", "">>, <<"i", 1>>, <<"s", "C1">>, <<"s", "c1 ">>, <<"s", "x\"y\\z<&>~00E9~">>, <<"b", 1>>, <<"null", 0>>>>) \o
  <<<<"lack", LackDim("client_credentials")>>, <<"secret", <<"header", "post", "all">>>>, <<"on", <<TRUE, FALSE>>>>, <<"cat", <<JWTB, "-", "urn:x">>>>, <<"ca", <<"$ca", "-", "">>>>,
    <<"scope", <<"profile", "admin">>>>, <<"xid", <<"-", "c1", "c2", "", "cX", "C1">>>>, <<"dup", DupDim(<<"client_assertion", "client_assertion_type">>)>>,
    <<"fault", Faults(All4("FindClientById") \o All3("RecordAssertionClaims") \o <<Ft("Issuer", "empty")>> \o All4("CreateOrUpdateAuthInfo"))>>>>
CAssertSc(A, a) ==
  LET v(n) == Val(A, a, n)
      d == JwtDesc(v, v("sub"), v("issuer"))
      cr == Cred(NoAuth, v("secret"), v("on"), <<<<"client_assertion", v("ca")>>, <<"client_assertion_type", v("cat")>>>>, <<>>, d)
      again == Cred(NoAuth, "header", TRUE, CAParams, <<>>, d)
      gps == <<<<"grant_type", "client_credentials">>, <<"scope", v("scope")>>, <<"client_id", v("xid")>>>>
      w == [TW(cr, v("lack"), v("euri"), Client1, Tok0) EXCEPT !.issuer = v("issuer")]
  IN Sc("cassert", w, Store0, <<TStep(T0, Dup(TRq("POST", v("tr"), cr, gps, NoJwt), v("dup")), v("fault")), TStep(T0, TRq("POST", "body", again, gps, NoJwt), NoFault), ResStep(T0, "AT-1")>>)

(* ------------------------------------------------------- client authentication, grant types *)
(* every credential against every grant, endpoint support and permission     *)
GrantParams(g) == CASE g = "authorization_code" -> <<<<"grant_type", g>>, <<"redirect_uri", "https://c1.example/cb">>, <<"code", "sc1">>>>
  [] g = "refresh_token" -> <<<<"grant_type", g>>, <<"refresh_token", "srt1">>>>
  [] g = "password" -> <<<<"grant_type", g>>, <<"username", "alice">>, <<"password", "pw1">>, <<"scope", "profile">>>>
  [] g = "client_credentials" -> <<<<"grant_type", g>>, <<"scope", "profile">>>>
  [] g = JWTB -> <<<<"grant_type", g>>, <<"assertion", "$ja">>, <<"scope", "profile">>>>
  [] OTHER -> <<<<"grant_type", g>>, <<"code", "sc1">>, <<"username", "alice">>, <<"password", "pw1">>, <<"redirect_uri", "https://c1.example/cb">>>>
JaOk == [form |-> "ok", alg |-> "HS256", kid |-> "k1", key |-> "hs:ak1", smeth |-> "",
  claims |-> <<Cl("sub", "s", "alice-sub"), Cl("aud", "s", World0.issuer), Cl("exp", "i", T0 + 300), Cl("jti", "s", "jG")>>]
OnlyDim == <<"all", "none", "self", "others">>
AuthFamDims == <<<<"cred", AuthDims>>,
  <<"gt", AllGrants \o <<"-", "", "implicit", "PASSWORD", "password ", "authorization_code refresh_token", "urn:ietf:params:oauth:grant-type:jwt-bearer">>>>,
  <<"te", OnlyDim>>, <<"cl", OnlyDim>>, <<"euri", EuriDim>>, <<"meth", <<"POST", "GET", "PUT", "HEAD", "DELETE", "post">>>>, <<"tr", TrDim>>, <<"realm", <<"realm one", "", "say \"hi\", or \\">>>>,
  <<"dup", DupDim(<<"grant_type", "client_id", "client_secret", "client_assertion">>)>>>>
Only(o, g) == CASE o = "all" -> AllGrants [] o = "none" -> <<>> [] o = "self" -> SelectSeq(AllGrants, LAMBDA x : x = g) [] OTHER -> SelectSeq(AllGrants, LAMBDA x : x # g)
AuthSc(A, a) ==
  LET v(n) == Val(A, a, n)
      cr == v("cred") g == v("gt")
      w == [TW(cr, Lack("", ""), v("euri"), [Client1 EXCEPT !.grants = Only(v("cl"), g)], Tok0) EXCEPT
              !.te.grants = Only(v("te"), g), !.clients[2].grants = Only(v("cl"), g), !.clients[3].grants = Only(v("cl"), g), !.realm = v("realm")]
  IN Sc("auth", w, Store0, <<TStep(T0, Dup(TRq(v("meth"), v("tr"), cr, GrantParams(g), JaOk), v("dup")), NoFault), ResStep(T0, "AT-1")>>)
=============================================================================
