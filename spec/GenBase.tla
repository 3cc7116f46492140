------------------------------- MODULE GenBase -------------------------------
(* Building blocks of the scenarios: worlds, stores, requests.  A family is  *)
(* a list of dimensions; the first value of each is the ordinary one, and a  *)
(* scenario is an assignment that departs from it in at most K dimensions.   *)
EXTENDS Base, SequencesExt

T0 == 1500000000
JWTB == "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
AllGrants == <<"authorization_code", "refresh_token", "password", "client_credentials", JWTB>>
AllScopes == <<"openid", "profile", "email", "offline_access", "read", "write", "address/x", "http://s.example/a", "openidx", "offline_accessx">>
Scopes(l) == [code |-> l, implicit |-> l, hybrid |-> l, direct |-> l]

LongURI == "https://c1.example/" \o Dbl("long/path-", 7)
LongPw == Dbl("correct horse battery staple ", 3) \o "."
Client1 == [id |-> "c1", secret |-> "s1", owner |-> 11, grants |-> AllGrants, flows |-> <<"code", "implicit", "hybrid">>,
  scopes |-> Scopes(AllScopes),
  ruris |-> <<"https://c1.example/cb", "https://c1.example/cb?x=1&y=a%20b", "com.c1.app:/cb", "https://c1.example/cb?", "https://c1.example/CB",
              "https://c1.example/p?q='><script>alert(1)</script>&z=\"", "http://localhost:8080/a/b/../c", "https://c1.example/%7Euser/cb",
              "https://c1.example:8443/cb;v=1", "https://c1.example", LongURI, "https://c1.example/cb?q=1&copy=2&lt=3&amp;amp=4">>,
  akeys |-> <<[alg |-> "HS256", kid |-> "k1", key |-> "hs:ak1"], [alg |-> "RS256", kid |-> "k2", key |-> "rsa1"],
              [alg |-> "ES256", kid |-> "k3", key |-> "ec1"], [alg |-> "HS512", kid |-> "", key |-> "hs:ak4"]>>,
  idalg |-> "HS256", idkid |-> "ik1", idkey |-> "hs:ik1", noconsent |-> "omit", none |-> "session"]
Client2 == [Client1 EXCEPT !.id = "c2", !.secret = "s2", !.owner = 12, !.ruris = <<"https://c2.example/cb", "https://c1.example/cb2">>,
  !.akeys = <<[alg |-> "HS256", kid |-> "k1", key |-> "hs:bk1"], [alg |-> "RS256", kid |-> "k2", key |-> "rsa2"]>>,
  !.idkid = "ik2", !.idkey = "hs:ik2"]
(* a client whose id and secret need care                                    *)
Client3 == [Client1 EXCEPT !.id = "c:3 x", !.secret = "p@s+s:%/&~00E9~", !.owner = 13, !.ruris = <<"https://c3.example/cb">>,
  !.akeys = <<[alg |-> "HS256", kid |-> "k1", key |-> "hs:ck1"]>>, !.idkid = "", !.idkey = "hs:ik3"]
(* and one whose id differs from the first one's in case only                 *)
Client4 == [Client2 EXCEPT !.id = "C1", !.secret = "sC", !.owner = 14, !.ruris = <<"https://c1.example/CB4", "https://C1.example/cb">>,
  !.akeys = <<[alg |-> "HS256", kid |-> "k1", key |-> "hs:dk1"]>>, !.idkid = "ik4", !.idkey = "hs:ik4"]
Users1 == <<[uid |-> 11, name |-> "alice", pass |-> "pw1", sub |-> "alice-sub"],
            [uid |-> 12, name |-> "bob", pass |-> "pw2", sub |-> "bob-sub"],
            [uid |-> 0, name |-> "zero user", pass |-> "p&w=3~00E9~", sub |-> "zero@sub"],
            [uid |-> 2147480000, name |-> "big", pass |-> LongPw, sub |-> "big-sub"],
            [uid |-> 15, name |-> " pad ", pass |-> " p w ", sub |-> " pad-sub "]>>

World0 == [realm |-> "realm one", issuer |-> "https://op.example/",
  te |-> [grants |-> AllGrants, secret |-> "header", assertion |-> FALSE, euri |-> "none"],
  rp |-> [from |-> "header", euri |-> "none", realm |-> "api realm", paths |-> <<>>],
  pol |-> [maxMaxAge |-> 86400, minMaxAge |-> 0, emptyScope |-> FALSE, maxNonce |-> 16, maxVerifier |-> 43, omission |-> 1000,
           codeTTL |-> 60, idTTL |-> 600, codeMode |-> "query", implMode |-> "fragment", ignoreMode |-> FALSE, secMode |-> TRUE],
  clients |-> <<Client1, Client2, Client3, Client4>>, users |-> Users1,
  tok |-> [attl |-> 3600, rttl |-> 7200, rotate |-> "yes", idttl |-> 900, rattl |-> -1, rtpol |-> "offline", scpol |-> "asked"]]

NoJwt == [form |-> "none", alg |-> "", kid |-> "", key |-> "none", smeth |-> "", claims |-> <<>>]
NoFault == [m |-> "", kind |-> "", n |-> 0]
Env0 == [login |-> FALSE, uid |-> -1, at |-> 0, fromLogin |-> FALSE, subs |-> <<>>, locale |-> "en"]
Hdr(kind, id, secret) == [kind |-> kind, id |-> id, secret |-> secret]
NoAuth == Hdr("none", "", "")
Rq0 == [m |-> "POST", path |-> "", auth |-> NoAuth, q |-> <<>>, b |-> <<>>, hdrs |-> <<>>, scoped |-> FALSE,
        ca |-> NoJwt, ja |-> NoJwt, hint |-> NoJwt, pend |-> 0, auth_ |-> 0]
Step0 == [k |-> "token", now |-> T0, alt |-> FALSE, env |-> Env0, rq |-> Rq0, fault |-> NoFault]

KV(k, v) == [k |-> k, v |-> v]
(* parameters; "-" marks an absent one                                       *)
Ps(l) == SelectSeq([i \in DOMAIN l |-> KV(l[i][1], l[i][2])], LAMBDA x : x.v # "-")

(* the same parameter more than once: the first value counts, and the body    *)
(* comes before the query                                                    *)
Evil(k) == CASE k = "client_id" -> "c2" [] k = "client_secret" -> "s2" [] k = "grant_type" -> "client_credentials" [] k = "code" -> "sc2"
  [] k = "redirect_uri" -> "https://c1.example/CB" [] k = "refresh_token" -> "srt2" [] k = "username" -> "bob" [] k = "password" -> "pw2"
  [] k = "scope" -> "openid email" [] k = "access_token" -> "sat2" [] k = "code_challenge_method" -> "plain" [] k = "code_challenge" -> "verif-1"
  [] k = "response_type" -> "token" [] k = "response_mode" -> "form_post" [] k = "max_age" -> "0" [] k = "prompt" -> "login" [] k = "display" -> "popup"
  [] k = "login_hint" -> "bob-sub" [] k \in {"assertion", "client_assertion", "id_token_hint"} -> "x.y.z" [] OTHER -> "evil"
Evils(l) == [i \in DOMAIN l |-> KV(l[i].k, Evil(l[i].k))]
DupDim(keys) == <<"none", "shadow", "later">> \o [i \in DOMAIN keys |-> "empty:" \o keys[i]]
Dup(rq, how) ==
  LET none == SubSeq(how, 7, Len(how))
  IN CASE how = "none" -> rq
       [] how = "shadow" -> IF HasBody(rq) THEN [rq EXCEPT !.q = @ \o Evils(rq.b)] ELSE [rq EXCEPT !.b = @ \o Evils(rq.q)]
       [] how = "later" -> [rq EXCEPT !.q = @ \o Evils(rq.q), !.b = @ \o Evils(rq.b)]
       [] HasBody(rq) -> [rq EXCEPT !.b = <<KV(none, "")>> \o @]
       [] OTHER -> [rq EXCEPT !.q = <<KV(none, "")>> \o @]

Cl(n, t, v) == [n |-> n, t |-> t, v |-> v]

(* ---------------------------------------------------------- enumeration   *)
(* dims: <<name, <<values>>>>.  An assignment is the sequence of its         *)
(* departures <<dimension, value index>>, dimensions ascending.              *)
Departures(dims) == UNION {{<<i, v>> : v \in 2..Len(dims[i][2])} : i \in DOMAIN dims}
Assigns(dims, k) ==
  LET D == Departures(dims)
      A1 == {<<x>> : x \in D}
      A2 == {<<x, y>> : x \in D, y \in D}
  IN {<<>>} \cup (IF k >= 1 THEN A1 ELSE {})
     \cup (IF k >= 2 THEN {a \in A2 : a[1][1] < a[2][1]} ELSE {})
     \cup (IF k >= 3 THEN UNION {{<<a[1], a[2], z>> : z \in {d \in D : d[1] > a[2][1]}} : a \in {b \in A2 : b[1][1] < b[2][1]}} ELSE {})
Positions(dims) == [n \in {dims[i][1] : i \in DOMAIN dims} |-> CHOOSE i \in DOMAIN dims : dims[i][1] = n]
(* A: [pos, dims]                                                            *)
RECURSIVE AIdx(_, _, _)
AIdx(a, i, p) == IF i > Len(a) THEN 1 ELSE IF a[i][1] = p THEN a[i][2] ELSE AIdx(a, i + 1, p)
Val(A, a, n) == A.dims[A.pos[n]][2][AIdx(a, 1, A.pos[n])]

(* full products: group is a sequence of <<dimension name, set of indices>>   *)
RECURSIVE Prod(_, _, _)
Prod(dims, G, i) ==
  IF i > Len(dims) THEN {<<>>}
  ELSE LET rest == Prod(dims, G, i + 1)
           mine == LET j == {m \in DOMAIN G : G[m][1] = dims[i][1]} IN IF j = {} THEN {1} ELSE G[CHOOSE m \in j : TRUE][2] \cap DOMAIN dims[i][2]
       IN UNION {{IF v = 1 THEN r ELSE <<<<i, v>>>> \o r : r \in rest} : v \in mine}
(* a group that names a dimension the family does not have is a mistake      *)
Product(dims, G) ==
  IF \A m \in DOMAIN G : \E i \in DOMAIN dims : dims[i][1] = G[m][1] THEN Prod(dims, G, 1) ELSE Print(<<"no such dimension", G>>, {}[1])

Bearer(tok) == [Rq0 EXCEPT !.m = "GET", !.path = "/api/read", !.auth = Hdr("bearer", "", tok)]
ResStep(now, tok) == [Step0 EXCEPT !.k = "res", !.now = now, !.rq = Bearer(tok)]
Sc(fam, w, st, steps) == [id |-> 0, fam |-> fam, w |-> w, w2 |-> <<>>, st |-> st, steps |-> steps, conc |-> "", sched |-> <<>>, keys |-> <<>>]
(* the same, the steps taken at the same time; sched: who takes the turns;   *)
(* keys: the operations at which a turn ends (none: every one)               *)
Together(fam, w, st, steps, conc, sched, keys) ==
  [Sc(fam, w, st, steps) EXCEPT !.conc = conc, !.sched = sched, !.keys = keys]
NoStore0 == [infos |-> <<>>, sess |-> <<>>, toks |-> <<>>, jtis |-> <<>>, pend |-> <<>>]
Info(id, uid, cid, scope) == [id |-> id, uid |-> uid, cid |-> cid, sub |-> "sub-" \o ToString(uid) \o "-" \o cid, scope |-> scope, at |-> T0 - 100, active |-> TRUE]
=============================================================================
