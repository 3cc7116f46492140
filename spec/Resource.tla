------------------------------ MODULE Resource ------------------------------
(* The resource protector: which requests are admitted, and as whom.         *)
EXTENDS Token

BearerKinds == {"bearer", "bearerlc", "beareruc", "bearermc"}
(* the access token the protector has to look at                             *)
ResToken(w, rq) ==
  IF rq.auth.kind \in BearerKinds /\ Words(rq.auth.secret)[1] # "" THEN Words(rq.auth.secret)[1]
  ELSE CASE w.rp.from = "post" -> PostParam(rq, "access_token")
         [] w.rp.from = "all" -> Param(rq, "access_token")
         [] OTHER -> ""
FromFams(rq) == {"C26"}

(* however it is written in the URL                                          *)
PathOf(rq) == IF rq.path \in {"/api/re%61d", "/%61pi/%72ead"} THEN "/api/read" ELSE rq.path
PathScopes(w, rq) ==
  IF rq.scoped /\ \E i \in DOMAIN w.rp.paths : w.rp.paths[i].path = PathOf(rq)
  THEN Range(w.rp.paths[IdxBy(w.rp.paths, LAMBDA p : p.path = PathOf(rq))].scopes) ELSE {}

ResRes(w, st, now, rq) ==
  LET tok == ResToken(w, rq)
      ti == TokIdx(st, tok)
  IN IF tok = "" THEN [fail |-> {F("invalid_request", {"C25", "C26"})}, info |-> 0]
     ELSE IF ti = 0 THEN [fail |-> {F("invalid_token", {"C25", "C26"})}, info |-> 0]
     ELSE LET t == st.toks[ti]
              ii == InfoIdx(st, t.auth)
              live == ii # 0 /\ (ii # 0 => st.infos[ii].active)
              dead == If1(t.refreshed + t.attl < now, F("invalid_token", {"C25"}))
                      \cup If1(~live, F("invalid_token", {"C25"}))
              sc == If1(live /\ (live => \E x \in PathScopes(w, rq) : ~HasWord(st.infos[ii].scope, x)),
                        F("insufficient_scope", {"C27"}))
          IN [fail |-> IF dead # {} THEN dead ELSE sc, info |-> ii]

ResStatus(code) == CASE code = "invalid_request" -> 400
                     [] code = "invalid_token" -> 401
                     [] code = "insufficient_scope" -> 403
                     [] OTHER -> 500
=============================================================================
