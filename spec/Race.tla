--------------------------------- MODULE Race ---------------------------------
(* Redemptions of one credential at the same time.  Each process takes the   *)
(* steps of its request on the store (look the credential up, mint, test and *)
(* set); all interleavings are explored, at most one process may be served   *)
(* by a credential good for once, and every interleaving is run against the  *)
(* code by the harness's scheduler and validated by Trace (Together).        *)
EXTENDS GenToken, Json, IOUtils

Num(n) == IF n \in DOMAIN IOEnv THEN IntVal(IOEnv[n]) ELSE 0
Atomic == Num("TORN") = 0   \* TORN=1: negative control, a store whose test-and-set is not one
Set == Num("DEPTH")         \* which cases

(* operations: m names the store's method, where a turn ends                 *)
Op(m) == [m |-> m, kind |-> "", cell |-> ""]
Find(m, cell) == [m |-> m, kind |-> "look", cell |-> cell]   \* refused once the cell is spent
Peek(m, cell) == [m |-> m, kind |-> "peek", cell |-> cell]   \* remembers the version of the cell
Take(m, cell) == [m |-> m, kind |-> "take", cell |-> cell]   \* test and set
CodeOps(cell) == <<Op("FindClientById"), Find("FindAuthSessionByCode", cell), Op("FindActiveAuthInfoById"), Op("CreateOAuthToken"),
                   Take("DisableSession", cell), Op("Issuer")>>
CodeBad(cell) == <<Op("FindClientById"), Find("FindAuthSessionByCode", cell), Op("FindActiveAuthInfoById")>>
Key3(cell) == <<Find("FindAuthSessionByCode", cell), Op("CreateOAuthToken"), Take("DisableSession", cell)>>
Keys3 == <<"FindAuthSessionByCode", "CreateOAuthToken", "DisableSession">>
AssertOps(cell) == <<Op("FindClientById"), Take("RecordAssertionClaims", cell), Op("Issuer"), Op("CreateOrUpdateAuthInfo"), Op("CreateOAuthToken")>>
JwtOps(cell) == <<Op("FindClientById"), Take("RecordAssertionClaims", cell), Op("Issuer"), Op("FindUserIdBySubject"), Op("CreateOrUpdateAuthInfo"), Op("CreateOAuthToken")>>
RefOps(cell) == <<Op("FindClientById"), Find("FindOAuthTokenByRefreshToken", cell), Op("FindActiveAuthInfoById"), Take("RefreshAccessToken", cell)>>
RefOpsKeep(cell) == <<Op("FindClientById"), Peek("FindOAuthTokenByRefreshToken", cell), Op("FindActiveAuthInfoById"), Take("RefreshAccessToken", cell)>>

(* ---------------------------------------------------------------- requests *)
W1 == [World0 EXCEPT !.te.secret = "all", !.te.assertion = TRUE, !.te.euri = "bytype"]
StC(verifier) == [Store0 EXCEPT !.sess[3].verifier = verifier]
Rdm(h, code, ruri, extra) ==
  [Step0 EXCEPT !.rq = [Rq0 EXCEPT !.auth = h, !.b = Ps(<<<<"grant_type", "authorization_code">>, <<"code", code>>, <<"redirect_uri", ruri>>>> \o extra)]]
C1 == Hdr("basic", "c1", "s1")
C2 == Hdr("basic", "c2", "s2")
CB == "https://c1.example/cb"
ByCa(jti, gps) == [Step0 EXCEPT !.rq = [Rq0 EXCEPT !.ca = CA("c1", "k1", "hs:ak1", jti), !.b = Ps(CAParams \o gps)]]
Jwt(h, c, key, jti) ==
  [Step0 EXCEPT !.rq = [Rq0 EXCEPT !.auth = h, !.b = Ps(<<<<"grant_type", JWTB>>, <<"assertion", "$ja">>, <<"scope", "profile">>>>),
     !.ja = [CA(c, "k1", key, jti) EXCEPT !.claims[1].v = "alice-sub"]]]
Rf(h, rt) == [Step0 EXCEPT !.rq = [Rq0 EXCEPT !.auth = h, !.b = Ps(<<<<"grant_type", "refresh_token">>, <<"refresh_token", rt>>>>)]]
Pk(v) == <<<<"code_challenge_method", "S256">>, <<"code_challenge", v>>>>
CC == <<<<"grant_type", "client_credentials">>, <<"scope", "profile">>>>
CodeP(h, extra) == <<<<"client_id", h>>>> \o extra

Case(w, st, reqs, progs, keys) == [w |-> w, st |-> st, reqs |-> reqs, progs |-> progs, keys |-> keys]
Cases ==
  IF Set = 1 THEN << \* two at a time, every operation a turn
    Case(W1, StC(""), <<Rdm(C1, "sc1", CB, <<>>), Rdm(C1, "sc1", CB, <<>>)>>, <<CodeOps("c"), CodeOps("c")>>, <<>>),
    Case(W1, StC("verif-1"), <<Rdm(C1, "sc1", CB, Pk(S256("verif-1"))), Rdm(NoAuth, "sc1", CB, SecP("c1", "s1") \o Pk(S256("verif-1")))>>, <<CodeOps("c"), CodeOps("c")>>, <<>>),
    Case(W1, StC("verif-1"), <<Rdm(C1, "sc1", CB, Pk(S256("verif-1"))), Rdm(C1, "sc1", CB, Pk("verif-1"))>>, <<CodeOps("c"), CodeBad("c")>>, <<>>),
    Case(W1, StC(""), <<Rdm(C1, "sc1", CB, <<>>), Rdm(C2, "sc1", CB, <<>>)>>, <<CodeOps("c"), CodeBad("c")>>, <<>>),
    Case(W1, StC(""), <<Rdm(C1, "sc1", CB, <<>>), Rdm(C1, "sc1", "https://c1.example/CB", <<>>)>>, <<CodeOps("c"), CodeBad("c")>>, <<>>),
    Case(W1, StC(""), <<Rdm(C1, "sc1", CB, <<>>), Rdm(C2, "sc2", "https://c2.example/cb", <<>>)>>, <<CodeOps("c"), CodeOps("d")>>, <<>>)>>
  ELSE IF Set = 2 THEN << \* three at a time
    Case(W1, StC(""), <<Rdm(C1, "sc1", CB, <<>>), Rdm(C1, "sc1", CB, <<>>), Rdm(C1, "sc1", CB, <<>>)>>, <<Key3("c"), Key3("c"), Key3("c")>>, Keys3),
    Case(W1, StC(""), <<Rdm(C1, "sc1", CB, <<>>), Rdm(C2, "sc1", CB, <<>>), Rdm(NoAuth, "sc1", CB, SecP("c1", "s1"))>>, <<Key3("c"), SubSeq(Key3("c"), 1, 1), Key3("c")>>, Keys3)>>
  ELSE IF Set = 3 THEN << \* assertions
    Case(W1, StC(""), <<ByCa("jX", CC), ByCa("jX", CC)>>, <<AssertOps("j"), AssertOps("j")>>, <<>>),
    Case(W1, StC(""), <<Jwt(C1, "c1", "hs:ak1", "jX"), Jwt(C1, "c1", "hs:ak1", "jX")>>, <<JwtOps("j"), JwtOps("j")>>, <<>>),
    Case(W1, StC(""), <<ByCa("jX", CC), Jwt(C1, "c1", "hs:ak1", "jX")>>, <<AssertOps("j"), JwtOps("j")>>, <<>>),
    Case(W1, StC(""), <<Jwt(C1, "c1", "hs:ak1", "jX"), Jwt(C2, "c2", "hs:bk1", "jX")>>, <<JwtOps("j"), JwtOps("k")>>, <<>>),
    Case(W1, StC(""), <<Jwt(C1, "c1", "hs:ak1", "jX"), Jwt(C1, "c1", "hs:ak1", "jY")>>, <<JwtOps("j"), JwtOps("k")>>, <<>>),
    Case(W1, StC(""), <<ByCa("jX", <<<<"grant_type", "authorization_code">>, <<"code", "sc1">>, <<"redirect_uri", CB>>>>), Rdm(C1, "sc1", CB, <<>>)>>,
         <<<<Op("FindClientById"), Op("RecordAssertionClaims"), Op("Issuer")>> \o Tail(CodeOps("c")), CodeOps("c")>>, <<>>)>>
  ELSE << \* refresh tokens
    Case(W1, StC(""), <<Rf(C1, "srt1"), Rf(C1, "srt1")>>, <<RefOps("r"), RefOps("r")>>, <<>>),
    Case([W1 EXCEPT !.tok.rotate = "no"], StC(""), <<Rf(C1, "srt1"), Rf(C1, "srt1")>>, <<RefOpsKeep("r"), RefOpsKeep("r")>>, <<>>),
    Case(W1, StC(""), <<Rf(C1, "srt1"), Rf(C2, "srt1")>>, <<RefOps("r"), SubSeq(RefOps("r"), 1, 3)>>, <<>>),
    Case(W1, StC(""), <<Rf(C1, "srt1"), Rf(C1, "srt1"), Rf(C1, "srt1")>>, <<SubSeq(RefOps("r"), 2, 4), SubSeq(RefOps("r"), 2, 4), SubSeq(RefOps("r"), 2, 4)>>,
         <<"FindOAuthTokenByRefreshToken", "FindActiveAuthInfoById", "RefreshAccessToken">>)>>

VARIABLES case, pc, ver, seen, out, sched
vars == <<case, pc, ver, seen, out, sched>>
CellNames == {"c", "d", "j", "k", "r"}
Procs == DOMAIN Cases[case].progs
Prog(i) == Cases[case].progs[i]
Takes(i) == \E k \in DOMAIN Prog(i) : Prog(i)[k].kind = "take"
CellOf(i) == LET k == CHOOSE k \in DOMAIN Prog(i) : Prog(i)[k].cell # "" IN Prog(i)[k].cell
Reusable(i) == \E k \in DOMAIN Prog(i) : Prog(i)[k].kind = "peek"

Init == /\ case \in DOMAIN Cases
        /\ pc = [i \in Procs |-> 1]
        /\ ver = [c \in CellNames |-> 0]
        /\ seen = [i \in Procs |-> 0]
        /\ out = [i \in Procs |-> ""]
        /\ sched = <<>>
Turn(i) ==
  /\ out[i] = ""
  /\ LET op == Prog(i)[pc[i]]
         last == pc[i] = Len(Prog(i))
         spent == op.cell # "" /\ ver[op.cell] > 0
         beaten == op.kind = "take" /\ Atomic /\ ver[op.cell] # seen[i]
         refused == (op.kind = "look" /\ spent) \/ beaten
     IN /\ ver' = IF op.kind = "take" /\ ~beaten THEN [ver EXCEPT ![op.cell] = @ + 1] ELSE ver
        /\ seen' = IF op.kind = "peek" THEN [seen EXCEPT ![i] = ver[op.cell]] ELSE seen
        /\ pc' = [pc EXCEPT ![i] = @ + 1]
        /\ out' = [out EXCEPT ![i] = IF refused THEN "refused" ELSE IF ~last THEN "" ELSE IF Takes(i) THEN "served" ELSE "refused"]
  /\ sched' = Append(sched, i)
  /\ UNCHANGED case
Next == \E i \in Procs : Turn(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ended == \A i \in Procs : out[i] # ""
(* a credential good for once serves at most one request                     *)
AtMostOnce == \A i, j \in Procs : (i # j /\ out[i] = "served" /\ out[j] = "served" /\ CellOf(i) = CellOf(j)) => Reusable(i)
(* and is spent exactly when it has served somebody                          *)
SpentIffServed == Ended => \A i \in Procs : Takes(i) => (ver[CellOf(i)] > 0 <=> \E j \in Procs : out[j] = "served" /\ CellOf(j) = CellOf(i))
(* nobody who could be served is refused unless somebody else was first      *)
SomebodyServed == Ended => \A i \in Procs : Takes(i) => \E j \in Procs : out[j] = "served" /\ CellOf(j) = CellOf(i)
(* who must not be served is not, and does not spend the credential          *)
ThievesGetNothing == \A i \in Procs : ~Takes(i) => out[i] # "served"
AllEnd == <>Ended

Scenario == Together("race", Cases[case].w, Cases[case].st, Cases[case].reqs, "race", sched, Cases[case].keys)
Export == (Atomic /\ Ended) => PrintT("HIST|" \o ToJson(Scenario))
=============================================================================
