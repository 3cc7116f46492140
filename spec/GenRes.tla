-------------------------------- MODULE GenRes --------------------------------
(* Scenario family of the resource protector.                                *)
EXTENDS GenToken

(* where the token travels: auth header kind, token parameter in body/query   *)
Place(h, other, b, q, m) == [h |-> h, other |-> other, b |-> b, q |-> q, m |-> m]
PlaceDim == <<
  Place("bearer", "", FALSE, FALSE, "GET"), Place("bearerlc", "", FALSE, FALSE, "GET"), Place("beareruc", "", FALSE, FALSE, "POST"),
  Place("none", "", TRUE, FALSE, "POST"), Place("none", "", FALSE, TRUE, "GET"), Place("none", "", FALSE, TRUE, "POST"),
  Place("none", "", TRUE, FALSE, "PUT"), Place("none", "", TRUE, FALSE, "GET"), Place("none", "", FALSE, FALSE, "GET"),
  Place("token", "", FALSE, FALSE, "GET"), Place("rawtok", "", FALSE, FALSE, "GET"), Place("bareword", "", FALSE, FALSE, "GET"),
  Place("token", "", TRUE, FALSE, "POST"), Place("rawtok", "", FALSE, TRUE, "GET"), Place("bareword", "", TRUE, FALSE, "POST"),
  \* the header wins, in both directions
  Place("bearer", "nope", TRUE, FALSE, "POST"), Place("bearer", "nope", FALSE, TRUE, "GET"), Place("bearerlc", "sat2", TRUE, FALSE, "POST"),
  Place("bearer", "sat2", FALSE, TRUE, "GET"), Place("basic", "", TRUE, FALSE, "POST"), Place("basic", "", FALSE, TRUE, "GET"),
  Place("bearer", "", FALSE, FALSE, "DELETE"), Place("bearer", "", FALSE, FALSE, "OPTIONS"), Place("none", "", TRUE, FALSE, "PATCH"), Place("bearermc", "", FALSE, FALSE, "GET")>>
(* now, created, refreshed, lifetime                                         *)
AtAge == <<<<T0, T0 - 60, T0 - 60, 3600>>, <<T0, T0 - 3600, T0 - 3600, 3600>>, <<T0, T0 - 3601, T0 - 3601, 3600>>, <<T0, T0 - 90000, T0 - 60, 3600>>,
  <<T0, T0 - 90000, T0 - 3601, 3600>>, <<T0, T0, T0, 0>>, <<T0, T0 - 1, T0 - 1, 0>>, <<T0, T0 - 1, T0 - 1, 1>>, <<T0, T0 - 2, T0 - 2, 1>>,
  <<T0, T0 + 10, T0 + 10, 60>>, <<T0, T0 - 90000, T0 - 90000, 100000>>, <<T0, T0 - 3600, T0 - 3599, 3600>>, <<T0, T0 - 60, T0 - 60, -1>>>>
PC(p, l) == [path |-> p, scopes |-> l]
PathDim == <<<<>>, <<PC("/api/read", <<"profile">>)>>, <<PC("/api/read", <<"read", "profile">>)>>, <<PC("/api/read", <<"profile", "openid">>)>>,
  <<PC("/api/read/", <<"admin">>), PC("/api", <<"admin">>), PC("/API/READ", <<"admin">>), PC("/", <<"admin">>)>>,
  <<PC("/api/read", <<>>)>>, <<PC("/api/write", <<"write">>), PC("/api/read", <<"offline_access">>)>>, <<PC("/api/read", <<"profil">>)>>,
  <<PC("/api/read", <<"profile", "profile">>)>>, <<PC("/api/read", <<"openid", "offline_access", "profile", "admin">>)>>, <<PC("/api/read", <<"PROFILE">>)>>>>
ResDims == <<
  <<"from", <<"header", "post", "all">>>>, <<"place", PlaceDim>>,
  <<"tok", <<"sat1", "-", "", "nope", "srt1", "SAT1", "sat", "sat1x", "sat2", "scoff", "sat3">>>>,
  <<"age", AtAge>>, <<"info", <<"ok", "inactive", "absent", "c2", "c:3 x", "C1">>>>,
  <<"scope", <<Full, "profile", "", "profilex openid", "read write", "xprofile", "openid profile offline_access admin", "PROFILE">>>>,
  <<"scoped", <<FALSE, TRUE>>>>, <<"paths", PathDim>>, <<"path", <<"/api/read", "/api/write", "/api", "/api/read/", "/other", "/API/READ", "/api/re%61d", "/%61pi/%72ead", "/api/read%20", "/api/read;v=1">>>>,
  <<"uid", <<11, 0, 2147480000>>>>, <<"front", <<FALSE, TRUE>>>>, <<"euri", EuriDim>>, <<"realm", <<"api realm", "", "say \"hi\", or \\">>>>,
  <<"hdrs", <<<<>>, <<KV("X-OAUTH-USER-ID", "99"), KV("X-OAUTH-CLIENT-ID", "evil"), KV("X-OAUTH-SCOPE", "admin profile read")>>,
              <<KV("X-Oauth-Scope", "admin"), KV("X-Oauth-Scope", "profile read"), KV("X-Oauth-User-Id", "1")>>>>>>, <<"dup", DupDim(<<"access_token">>)>>,
  <<"fault", Faults(All4("FindOAuthTokenByAccessToken") \o All4("FindActiveAuthInfoById"))>>>>
ResSc(A, a) ==
  LET v(n) == Val(A, a, n)
      pl == v("place") ag == v("age") tk == v("tok")
      w == [World0 EXCEPT !.rp = [from |-> v("from"), euri |-> v("euri"), realm |-> v("realm"), paths |-> v("paths")]]
      inf == [Info(1, v("uid"), IF v("info") \in {"c2", "c:3 x", "C1"} THEN v("info") ELSE "c1", v("scope")) EXCEPT !.active = v("info") # "inactive"]
      st == [Store0 EXCEPT !.infos = (IF v("info") = "absent" THEN <<>> ELSE <<inf>>) \o Tail(Store0.infos),
                           !.toks[2] = [@ EXCEPT !.created = ag[2], !.refreshed = ag[3], !.attl = ag[4], !.front = v("front")]]
      ps == Ps(<<<<"access_token", tk>>>>)
      hv == IF pl.other # "" THEN pl.other ELSE IF tk = "-" THEN "" ELSE tk
      rq == Dup([Rq0 EXCEPT !.m = pl.m, !.path = v("path"), !.hdrs = v("hdrs"), !.scoped = v("scoped"),
               !.auth = CASE pl.h = "basic" -> Hdr("basic", "c1", "s1") [] pl.h \in {"none", "bareword"} -> Hdr(pl.h, "", "")
                          [] tk = "-" /\ pl.other = "" -> NoAuth [] OTHER -> Hdr(pl.h, "", hv),
               !.b = IF pl.b THEN ps ELSE <<>>, !.q = IF pl.q THEN ps ELSE <<>>], v("dup"))
      s(now, f) == [Step0 EXCEPT !.k = "res", !.now = now, !.rq = rq, !.fault = f]
  IN Sc("res", w, st, <<s(ag[1], v("fault")), s(ag[1] + 1, NoFault)>>)
=============================================================================
