-------------------------------- MODULE Token --------------------------------
(* The token endpoint: which requests must be refused (and by which error),  *)
(* what an accepted request does to the store and what it answers.           *)
(*                                                                           *)
(* A failing condition is F(code, fams): the error it calls for and the      *)
(* properties it belongs to.  Conditions of one stage form a set: the code   *)
(* may report any of them.  A later stage is only reached when the earlier   *)
(* one has no failing condition.                                             *)
EXTENDS Base

F(code, fams) == [c |-> code, f |-> fams]
CodesOf(s) == {x.c : x \in s}
FamsOf(s) == UNION {x.f : x \in s}

JWTBearer == "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
GrantTypes == {"authorization_code", "refresh_token", "password", "client_credentials", JWTBearer}

(* ------------------------------------------------------------- assertions *)
AKeyIdx(c, alg, kid) == IdxBy(c.akeys, LAMBDA k : k.alg = alg /\ k.kid = kid)
HeaderAlg(d) == d.alg
NumVal(d, n) == Claim(d, n).v
NoRec == [cid |-> "", jti |-> "", iat |-> 0, exp |-> 0]
(* the replay record the store must be asked for                             *)
RecOf(d, cid) == [cid |-> cid, jti |-> ClaimStr(d, "jti"),
                  iat |-> IF IsNum(d, "iat") THEN NumVal(d, "iat") ELSE -1,
                  exp |-> IF IsNum(d, "exp") THEN NumVal(d, "exp") ELSE 0]
Replayed(st, r) == r.jti # "" /\ \E i \in DOMAIN st.jtis : st.jtis[i].cid = r.cid /\ st.jtis[i].jti = r.jti

(* ci: index of the client the assertion concerns (0: taken from `sub`).     *)
(* Result: failing conditions; client; the record allowed (authentic and     *)
(* current) if any.                                                          *)
Assertion(w, st, now, d, ci0) ==
  LET A == {"C10", "C14"}
      byClient == ci0 = 0
      ci == IF byClient THEN ClientIdx(w, ClaimStr(d, "sub")) ELSE ci0
      fam == IF byClient THEN A \cup {"C01"} ELSE A \cup {"C09"}
  IN
  IF d.form = "noalg" \/ ~WellFormed(d)
  THEN [fail |-> {F("invalid_grant", fam)}, ci |-> 0, rec |-> {}]
  ELSE
  LET keystage ==
        If1(d.alg \notin Algs, F("invalid_grant", fam))
        \cup If1(byClient /\ ~IsStr(d, "sub"), F("invalid_request", fam))
        \cup If1(byClient /\ IsStr(d, "sub") /\ ci = 0, F("invalid_client/400", fam))
        \cup If1(ci # 0 /\ (ci # 0 => AKeyIdx(w.clients[ci], HeaderAlg(d), d.kid) = 0), F("invalid_grant", fam))
  IN IF keystage # {} THEN [fail |-> keystage, ci |-> 0, rec |-> {}]
  ELSE
  LET c == w.clients[ci]
      key == c.akeys[AKeyIdx(c, d.alg, d.kid)].key
      sig == If1(~SignedBy(d, key), F("invalid_client/400", fam))
      current ==
        IF ~HasClaim(d, "exp") THEN {F("invalid_request", fam)}
        ELSE IF ~IsNum(d, "exp") THEN {F("invalid_request", fam), F("invalid_grant", fam)}
        ELSE If1(NumVal(d, "exp") < now \/ NumVal(d, "exp") <= 0, F("invalid_grant", fam))
      early == If1(IsNum(d, "nbf") /\ (IsNum(d, "nbf") => NumVal(d, "nbf") > now), F("invalid_grant", fam))
               \cup If1(IsNum(d, "iat") /\ (IsNum(d, "iat") => NumVal(d, "iat") > now), F("invalid_grant", fam))
      rec == RecOf(d, c.id)
      auth == sig \cup current \cup early
      replay == If1(Replayed(st, rec), F("invalid_request", fam))
      aud == If1(~IsStr(d, "aud"), F("invalid_request", fam))
             \cup If1(IsStr(d, "aud") /\ ClaimStr(d, "aud") # w.issuer, F("invalid_grant", fam))
  IN [fail |-> auth \cup (IF HasClaim(d, "exp") => IsNum(d, "exp") THEN replay ELSE {}) \cup aud,
      ci |-> ci,
      rec |-> IF auth = {} THEN {rec} ELSE {}]

(* --------------------------------------------------- client authentication *)
HeaderCred(rq) == rq.auth.kind \in {"basic", "basiclc", "basicuc"}
SecretParam(w, rq, k) == CASE w.te.secret = "post" -> PostParam(rq, k)
                           [] w.te.secret = "all" -> Param(rq, k)
                           [] OTHER -> ""
ParamCred(w, rq) == SecretParam(w, rq, "client_id") # "" /\ SecretParam(w, rq, "client_secret") # ""
AssertCred(w, rq) == w.te.assertion /\ Param(rq, "client_assertion") # ""
                     /\ Param(rq, "client_assertion_type") = JWTBearer
Via(w, rq) == IF HeaderCred(rq) THEN "header"
              ELSE IF ParamCred(w, rq) THEN "param"
              ELSE IF AssertCred(w, rq) THEN "assertion" ELSE "none"

BySecret(w, id, secret, code) ==
  LET ci == ClientIdx(w, id)
  IN [fail |-> If1(ci = 0 \/ (ci # 0 /\ w.clients[ci].secret # secret), F(code, {"C01"})),
      ci |-> ci, rec |-> {}]
ClientAuth(w, st, now, rq) ==
  CASE Via(w, rq) = "header" -> BySecret(w, rq.auth.id, rq.auth.secret, "invalid_client/401")
    [] Via(w, rq) = "param" -> BySecret(w, SecretParam(w, rq, "client_id"), SecretParam(w, rq, "client_secret"), "invalid_client/400")
    [] Via(w, rq) = "assertion" -> Assertion(w, st, now, rq.ca, 0)
    [] OTHER -> [fail |-> {F("invalid_client/401", {"C01"})}, ci |-> 0, rec |-> {}]

(* ------------------------------------------------------------- code grant *)
Miss(rq, k, fams) == If1(Param(rq, k) = "", F("invalid_request", fams))

Pkce(s, rq) ==
  LET cm == Param(rq, "code_challenge_method")
      cc == Param(rq, "code_challenge")
  IN IF s.verifier = "" THEN {}
     ELSE IF cm \notin {"plain", "S256"} \/ cc = "" THEN {F("invalid_request", {"C06"})}
     ELSE If1(cc # (IF cm = "plain" THEN s.verifier ELSE S256(s.verifier)), F("invalid_grant", {"C06"}))

CodeFail(w, st, now, rq, c) ==
  LET code == Param(rq, "code")
      uri == Param(rq, "redirect_uri")
      miss == Miss(rq, "redirect_uri", {"C03"}) \cup Miss(rq, "code", {"C03"})
      si == SessIdx(st, code)
  IN IF code = "" THEN miss
     ELSE IF si = 0 THEN miss \cup {F("invalid_grant", {"C03"})}
     ELSE LET s == st.sess[si] IN
       IF ~s.on THEN miss \cup {F("invalid_grant", {"C04"})}
       ELSE LET ii == InfoIdx(st, s.auth)
                live == ii # 0 /\ (ii # 0 => st.infos[ii].active)
            IN miss
               \cup If1(s.created + s.ttl < now, F("invalid_grant", {"C05"}))
               \cup If1(~live, F("invalid_grant", {"C03"}))
               \cup If1(live /\ (live => st.infos[ii].cid # c.id), F("invalid_grant", {"C03"}))
               \cup If1(uri # "" /\ uri # s.ruri, F("invalid_grant", {"C03"}))
               \cup Pkce(s, rq)
               \cup If1(live /\ (live => HasWord(st.infos[ii].scope, "openid")) /\ ~KeyFits(c.idalg, c.idkey),
                        F("server_error", {"C12", "C13", "late"}))

(* ---------------------------------------------------------- refresh grant *)
RefreshFail(w, st, now, rq, c) ==
  LET rt == Param(rq, "refresh_token")
      ti == RTokIdx(st, rt)
  IN IF rt = "" THEN {F("invalid_request", {"C08"})}
     ELSE IF ti = 0 THEN {F("invalid_grant", {"C08"})}
     ELSE LET t == st.toks[ti]
              ii == InfoIdx(st, t.auth)
              live == ii # 0 /\ (ii # 0 => st.infos[ii].active)
          IN If1(t.created + t.rttl < now, F("invalid_grant", {"C08"}))
             \cup If1(~live, F("invalid_grant", {"C08"}))
             \cup If1(live /\ (live => st.infos[ii].cid # c.id), F("invalid_grant", {"C08"}))
             \cup If1(live /\ (live => ~HasWord(st.infos[ii].scope, "offline_access")), F("invalid_grant", {"C08"}))

(* ----------------------------------------------------------- direct grants *)
CanScope(l, scope) == scope = "" \/ \A x \in WordSet(scope) : x \in Range(l)
ScopeFail(rq, c) == If1(~CanScope(c.scopes.direct, Param(rq, "scope")), F("invalid_scope", {"C09"}))

UserBy(w, n, p) == IdxBy(w.users, LAMBDA u : u.name = n /\ u.pass = p)
UserSub(w, s) == IdxBy(w.users, LAMBDA u : u.sub = s)

PasswordFail(w, st, now, rq, c) ==
  Miss(rq, "username", {"C09"}) \cup Miss(rq, "password", {"C09"}) \cup ScopeFail(rq, c)
  \cup If1(/\ Param(rq, "username") # "" /\ Param(rq, "password") # ""
           /\ UserBy(w, Param(rq, "username"), Param(rq, "password")) = 0, F("invalid_grant", {"C09"}))

ClientCredFail(w, st, now, rq, c) ==
  If1(c.owner < 0, F("invalid_grant", {"C09"})) \cup ScopeFail(rq, c)

JwtFail(w, st, now, rq, c, ci) ==
  IF Param(rq, "assertion") = "" THEN [fail |-> {F("invalid_request", {"C09", "C10"})}, rec |-> {}]
  ELSE LET a == Assertion(w, st, now, rq.ja, ci)
           d == rq.ja
           sub == IF ~WellFormed(d) THEN {}
                  ELSE If1(~IsStr(d, "sub"), F("invalid_request", {"C09"}))
                       \cup If1(IsStr(d, "sub") /\ UserSub(w, ClaimStr(d, "sub")) = 0, F("invalid_grant", {"C09"}))
       IN IF a.fail # {} THEN [fail |-> a.fail, rec |-> a.rec]
          ELSE [fail |-> sub \cup ScopeFail(rq, c), rec |-> a.rec]

DirectUid(w, rq, c, gt) ==
  CASE gt = "password" -> w.users[UserBy(w, Param(rq, "username"), Param(rq, "password"))].uid
    [] gt = "client_credentials" -> c.owner
    [] OTHER -> w.users[UserSub(w, ClaimStr(rq.ja, "sub"))].uid

(* ------------------------------------------------------------ all together *)
TokenRes(w, st, now, rq) ==
  LET gt == Param(rq, "grant_type")
      ca == ClientAuth(w, st, now, rq)
      gtf == IF gt = "" THEN {F("invalid_request", {"C02"})}
             ELSE If1(gt \notin Range(w.te.grants), F("unsupported_grant_type", {"C02"}))
  IN IF rq.m # "POST" THEN [fail |-> {F("405", {"C02"})}, ci |-> 0, gt |-> gt, carec |-> {}, jarec |-> {}]
     ELSE IF gtf \cup ca.fail # {} THEN [fail |-> gtf \cup ca.fail, ci |-> 0, gt |-> gt, carec |-> ca.rec, jarec |-> {}]
     ELSE LET c == w.clients[ca.ci]
              perm == If1(gt \notin Range(c.grants), F("unauthorized_client", {"C02"}))
              j == JwtFail(w, st, now, rq, c, ca.ci)
              g == CASE gt = "authorization_code" -> CodeFail(w, st, now, rq, c)
                     [] gt = "refresh_token" -> RefreshFail(w, st, now, rq, c)
                     [] gt = "password" -> PasswordFail(w, st, now, rq, c)
                     [] gt = "client_credentials" -> ClientCredFail(w, st, now, rq, c)
                     [] OTHER -> j.fail
          IN [fail |-> perm \cup g, ci |-> ca.ci, gt |-> gt, carec |-> ca.rec,
              jarec |-> IF gt = JWTBearer THEN j.rec ELSE {}]

(* which properties a wrongly refused request of this kind offends           *)
PathFams(w, st, rq, gt) ==
  {"C01", "C02", "C14"}
  \cup (IF Via(w, rq) = "assertion" THEN {"C10"} ELSE {})
  \cup CASE gt = "authorization_code" -> {"C03", "C04", "C05", "C06", "C11", "C12", "C29"}
         [] gt = "refresh_token" -> {"C08", "C11", "C29"}
         [] gt \in {"password", "client_credentials"} -> {"C09", "C11", "C29"}
         [] gt = JWTBearer -> {"C09", "C10", "C11"}
         [] OTHER -> {}

(* ------------------------------------------------------------------ faults *)
TokenFaultErrs(w, rq, m, kind) ==
  IF kind # "failed" THEN {"server_error"}
  ELSE CASE m = "FindClientById" -> {IF HeaderCred(rq) THEN "invalid_client/401" ELSE "invalid_client/400"}
         [] m = "RecordAssertionClaims" -> {"invalid_request"}
         [] m \in {"CreateOAuthToken", "RefreshAccessToken", "DisableSession", "CreateOrUpdateAuthInfo"} -> {"invalid_grant", "server_error"}
         [] OTHER -> {"invalid_grant"}
FaultFams(m) == {"C13"} \cup
  CASE m = "FindClientById" -> {"C01"}
    [] m \in {"FindAuthSessionByCode"} -> {"C03"}
    [] m = "DisableSession" -> {"C04"}
    [] m = "FindActiveAuthInfoById" -> {"C03", "C08"}
    [] m \in {"FindOAuthTokenByRefreshToken", "RefreshAccessToken"} -> {"C08"}
    [] m \in {"FindUserId", "FindUserIdBySubject", "CreateOrUpdateAuthInfo"} -> {"C09"}
    [] m \in {"RecordAssertionClaims", "Issuer"} -> {"C10"}
    [] OTHER -> {}
=============================================================================
