------------------------------- MODULE GenConc -------------------------------
(* Requests of two clients and two users that have nothing to do with each   *)
(* other, handled at the same time by the same endpoint objects: one runs    *)
(* for i turns, the other for j turns, and so on; a turn ends at every       *)
(* operation on the environment, on the response and on the client object.   *)
EXTENDS GenAuthz

IWorld == [World0 EXCEPT !.te.secret = "all", !.te.assertion = TRUE, !.te.euri = "bytype", !.rp.from = "all", !.rp.euri = "bytype",
  !.rp.paths = <<[path |-> "/api/read", scopes |-> <<"openid">>], [path |-> "/api/write", scopes |-> <<"write">>]>>,
  !.pol.omission = 10000, !.clients[2].none = "idhint", !.clients[2].idalg = "RS256", !.clients[2].idkid = "rk", !.clients[2].idkey = "rsa2"]
(* endpoints configured in different ways live in one process               *)
IWorldV(v) == IF v = 0 THEN IWorld
  ELSE IF v = 1 THEN [IWorld EXCEPT !.te.euri = "none", !.rp.euri = "none", !.realm = "another realm", !.rp.realm = "another api", !.pol.codeTTL = 45, !.pol.idTTL = 333, !.tok.attl = 1800]
  ELSE [IWorld EXCEPT !.te.euri = "fixed", !.rp.euri = "fixed", !.realm = "r3", !.rp.realm = "", !.pol.codeTTL = 90, !.pol.idTTL = 700, !.tok.attl = 7000, !.issuer = "https://other.example/"]
Sd(s) == IF s = 1
  THEN [c |-> "c1", sec |-> "s1", u |-> 11, ruri |-> "https://c1.example/cb", code |-> "scI1", rt |-> "srtI1", at |-> "satI1", key |-> "hs:ak1", name |-> "alice", pw |-> "pw1",
        sub |-> "alice-sub", state |-> "state-1", nonce |-> "nonce-1", verif |-> "verif-1", hkey |-> "hs:ik1", halg |-> "HS256", hkid |-> "ik1"]
  ELSE IF s = 3  \* another user of the first client
  THEN [c |-> "c1", sec |-> "s1", u |-> 12, ruri |-> "https://c1.example/CB", code |-> "scI3", rt |-> "srtI3", at |-> "satI3", key |-> "hs:ak1", name |-> "bob", pw |-> "pw2",
        sub |-> "bob-sub", state |-> "state-3", nonce |-> "nonce-3", verif |-> "a", hkey |-> "hs:ik1", halg |-> "HS256", hkid |-> "ik1"]
  ELSE [c |-> "c2", sec |-> "s2", u |-> 12, ruri |-> "https://c2.example/cb", code |-> "scI2", rt |-> "srtI2", at |-> "satI2", key |-> "hs:bk1", name |-> "bob", pw |-> "pw2",
        sub |-> "bob-sub", state |-> "state-2", nonce |-> "nonce-2", verif |-> "a", hkey |-> "rsa2", halg |-> "RS256", hkid |-> "rk"]
IPend(s) == [Pend0 EXCEPT !.cid = Sd(s).c, !.rt = IF s = 1 THEN "code" ELSE "hybrid+id_token+token", !.ruri = Sd(s).ruri, !.mode = IF s = 1 THEN "query" ELSE "form_post",
               !.state = Sd(s).state, !.nonce = Sd(s).nonce, !.verifier = Sd(s).verif, !.scope = IF s = 1 THEN "openid profile" ELSE "openid profile email"]
IStore == [infos |-> <<Info(1, 11, "c1", "openid profile offline_access"), Info(2, 12, "c2", "openid profile email offline_access"), Info(3, 12, "c1", "openid profile email offline_access")>>,
  sess |-> [s \in 1..3 |-> [Sess(Sd(s).code, s) EXCEPT !.ruri = Sd(s).ruri, !.verifier = Sd(s).verif, !.nonce = Sd(s).nonce]],
  toks |-> [s \in 1..3 |-> Tok(Sd(s).at, Sd(s).rt, s)],
  jtis |-> <<[cid |-> "c1", jti |-> "jOld"], [cid |-> "c2", jti |-> "jOld"]>>, pend |-> [s \in 1..3 |-> IPend(s)]]

IHdr(s) == Hdr("basic", Sd(s).c, Sd(s).sec)
IPost(s, ps) == [Step0 EXCEPT !.rq = [Rq0 EXCEPT !.auth = IHdr(s), !.b = Ps(ps)]]
IQuery(s, ps) == [Step0 EXCEPT !.rq = [Rq0 EXCEPT !.b = Ps(SecP(Sd(s).c, Sd(s).sec)), !.q = Ps(ps)]]
ICode(s, ruri, cc) == <<<<"grant_type", "authorization_code">>, <<"redirect_uri", ruri>>, <<"code", Sd(s).code>>, <<"code_challenge_method", "S256">>, <<"code_challenge", cc>>>>
IAssert(s, jti) == [CA(Sd(s).c, "k1", Sd(s).key, jti) EXCEPT !.key = Sd(s).key]
IAuthz(s, rt, mode, scope, prompt, login) ==
  [Step0 EXCEPT !.k = "authz", !.env = [Env0 EXCEPT !.login = login, !.uid = IF login THEN Sd(s).u ELSE -1, !.at = T0 - 10 * s, !.subs = <<Sd(s).sub>>, !.locale = IF s = 1 THEN "en" ELSE "ja"],
     !.rq = [Rq0 EXCEPT !.m = "GET", !.q = Ps(<<<<"client_id", Sd(s).c>>, <<"redirect_uri", Sd(s).ruri>>, <<"response_type", rt>>, <<"scope", scope>>, <<"state", Sd(s).state>>,
       <<"nonce", Sd(s).nonce>>, <<"response_mode", mode>>, <<"prompt", prompt>>, <<"code_verifier", Sd(s).verif>>, <<"id_token_hint", IF prompt = "none" THEN "$hint" ELSE "-">>>>),
       !.hint = [HintOk EXCEPT !.alg = Sd(s).halg, !.kid = Sd(s).hkid, !.key = Sd(s).hkey, !.claims[1] = Cl("sub", "s", Sd(s).sub), !.claims[3] = Cl("aud", "s", Sd(s).c)]]]
IGiven(s) == IF s = 1 THEN "openid profile offline_access" ELSE "openid profile email offline_access"
NoOff(s) == Without(IGiven(s), "offline_access")
IRes(s, at, path) == [Step0 EXCEPT !.k = "res", !.rq = [Bearer(at) EXCEPT !.path = path, !.scoped = TRUE]]
IKinds == 24
IKind(k, s) ==
  CASE k = 1 -> IPost(s, ICode(s, Sd(s).ruri, S256(Sd(s).verif)))
    [] k = 2 -> IPost(s, ICode(s, Sd(s).ruri \o "x", S256(Sd(s).verif)))
    [] k = 3 -> IPost(s, <<<<"grant_type", "refresh_token">>, <<"refresh_token", Sd(s).rt>>>>)
    [] k = 4 \/ (k = 5 /\ s = 3) -> IQuery(s, <<<<"grant_type", "password">>, <<"username", Sd(s).name>>, <<"password", Sd(s).pw>>, <<"scope", IF s = 1 THEN "profile offline_access" ELSE "email">>>>)
    [] k = 5 /\ s # 3 -> IPost(s, <<<<"grant_type", "client_credentials">>, <<"scope", IF s = 1 THEN "read" ELSE "write offline_access">>>>)
    [] k = 6 -> [IPost(s, <<<<"grant_type", JWTB>>, <<"assertion", "$ja">>, <<"scope", IF s = 1 THEN "read" ELSE "write">>>>)
                   EXCEPT !.rq.ja = [IAssert(s, "jI" \o Str(s)) EXCEPT !.claims[1].v = Sd(s).sub]]
    [] k = 7 -> [Step0 EXCEPT !.rq = [Rq0 EXCEPT !.ca = IAssert(s, "jI" \o Str(s)), !.b = Ps(CAParams \o ICode(s, Sd(s).ruri, S256(Sd(s).verif)))]]
    [] k = 8 -> [IPost(s, ICode(s, Sd(s).ruri, S256(Sd(s).verif))) EXCEPT !.rq.auth = Hdr("basic", Sd(s).c, "wrong")]
    [] k = 9 -> IPost(s, <<<<"grant_type", IF s = 1 THEN "-" ELSE "foo">>>>)
    [] k = 10 -> IRes(s, Sd(s).at, "/api/read")
    [] k = 11 -> IRes(s, "nope", "/api/read")
    [] k = 12 -> IRes(s, Sd(s).at, "/api/write")
    [] k = 13 -> IAuthz(s, "code", "-", IGiven(s), "consent", TRUE)
    [] k = 14 -> IAuthz(s, IF s = 1 THEN "token" ELSE "code id_token token", "-", NoOff(s), "-", FALSE)
    [] k = 15 -> IAuthz(s, IF s = 1 THEN "code" ELSE "id_token token", IF s = 1 THEN "form_post" ELSE "-", "admin openid", "-", TRUE)
    [] k = 16 -> [Step0 EXCEPT !.k = "complete", !.env = [Env0 EXCEPT !.login = TRUE, !.uid = Sd(s).u, !.at = T0 - 7 * s], !.rq = [Rq0 EXCEPT !.pend = s]]
    [] k = 17 -> [Step0 EXCEPT !.k = "cancel", !.env = [Env0 EXCEPT !.login = TRUE, !.uid = Sd(s).u, !.at = T0 - 7 * s], !.rq = [Rq0 EXCEPT !.pend = s]]
    \* consent was given for exactly this scope (see the store)
    [] k = 18 -> IAuthz(s, IF s = 1 THEN "code" ELSE "id_token token", IF s = 1 THEN "-" ELSE "form_post", NoOff(s), "none", TRUE)
    [] k = 19 -> IAuthz(s, IF s = 1 THEN "id_token" ELSE "code id_token token", "-", NoOff(s), "-", TRUE)
    [] k = 20 -> [IAuthz(s, "code", "-", NoOff(s), "-", TRUE) EXCEPT !.rq.q[1].v = "cX"]
    [] k = 21 -> IPost(s, <<<<"grant_type", "client_credentials">>, <<"scope", "admin">>>>)
    [] k = 22 -> [IPost(s, <<<<"grant_type", "refresh_token">>, <<"refresh_token", "nope">>>>) EXCEPT !.rq.m = IF s = 1 THEN "GET" ELSE "POST"]
    [] k = 23 -> [IQuery(s, ICode(s, Sd(s).ruri, S256(Sd(s).verif))) EXCEPT !.fault = [m |-> "CreateOAuthToken", kind |-> "server", n |-> 0]]
    [] OTHER -> [Step0 EXCEPT !.k = "res", !.rq = [Rq0 EXCEPT !.m = "POST", !.path = "/api/read", !.b = Ps(<<<<"access_token", Sd(s).at>>>>), !.scoped = TRUE]]
(* for prompt=none and omitted consent the authorization must cover exactly  *)
(* the scope asked for                                                       *)
IStoreFor(a, b) == [IStore EXCEPT !.infos = [s \in 1..3 |->
   IF (IF s = 1 THEN a ELSE b) \in {18, 19} THEN [IStore.infos[s] EXCEPT !.scope = NoOff(s)] ELSE IStore.infos[s]]]

Rep(x, n) == [i \in 1..n |-> x]
Turns(i, j) == Rep(1, i) \o Rep(2, j)
Zig(n) == [i \in 1..n |-> 1 + (i % 2)]
Zig2(n) == [i \in 1..n |-> 1 + ((i \div 2) % 2)]
IsoSc(v, a, b, other, sch) == Together("iso", IWorldV(v), IStoreFor(a, b), <<IKind(a, 1), IKind(b, other)>>, "iso", sch, <<>>)
(* how far the first one gets: every turn; the second one all the way, or a  *)
(* number of turns derived from the position and the seed                    *)
(* step: only every step-th position of the first                            *)
IsoSched(a, b, seed, step, m) ==
  LET n == 48 \div step
      i(x) == step * (x - 1) + 1 + ((seed + a * 2 + b) % step)
  IN CASE m <= n -> Turns(i(m), 90)
       [] m <= 2 * n -> Turns(i(m - n), 1 + ((i(m - n) * 7 + a * 5 + b * 3 + seed * 11) % 37))
       [] m = 2 * n + 1 -> Zig(100)
       [] OTHER -> Zig2(100)
Iso(seed, step) ==
  LET M == 2 * (48 \div step) + 2
  IN [x \in 1..(IKinds * IKinds * M) |->
        LET y == (x - 1) \div M a == 1 + (y % IKinds) b == 1 + (y \div IKinds)
        IN IsoSc((x + a) % 3, a, b, IF (x + y) % 4 = 0 THEN 3 ELSE 2, IsoSched(a, b, seed, step, 1 + ((x - 1) % M)))]

(* many requests really at the same time                                     *)
FreeSc(n, seed) ==
  LET a == 1 + ((n * 5 + seed) % IKinds) b == 1 + ((n * 7 + n \div IKinds + seed * 3) % IKinds)
  IN Together("free", IWorldV(n % 3), IStoreFor(a, b), <<IKind(a, 1), IKind(b, 2), IKind(11, 1), IKind(8, 2), IKind(9, 1), IKind(21, 2), IKind(15, 1), IKind(20, 2)>>, "free", <<>>, <<>>)
Free(n, seed) == [i \in 1..n |-> FreeSc(i, seed)]
=============================================================================
