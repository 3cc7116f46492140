-------------------------------- MODULE Base --------------------------------
(* Vocabulary shared by every module: words, parameters, look-ups, JWTs.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}
If1(b, x) == IF b THEN {x} ELSE {}
Ch(s, i) == SubSeq(s, i, i)

RECURSIVE SplitAt(_, _, _)
SplitAt(s, from, i) ==
  IF i > Len(s) THEN <<SubSeq(s, from, Len(s))>>
  ELSE IF Ch(s, i) = " " THEN <<SubSeq(s, from, i - 1)>> \o SplitAt(s, i + 1, i + 1)
  ELSE SplitAt(s, from, i + 1)
(* the words of a space separated list; the empty string has one empty word  *)
Words(s) == SplitAt(s, 1, 1)
WordSet(s) == Range(Words(s))
HasWord(s, w) == w \in WordSet(s)

RECURSIVE Join(_)
Join(ws) == IF Len(ws) = 0 THEN ""
            ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o " " \o Join(Tail(ws))
Without(s, w) == Join(SelectSeq(Words(s), LAMBDA x : x # w))
(* same multiset of words                                                    *)
Count(s, w) == Cardinality({i \in DOMAIN s : s[i] = w})
SameWords(a, b) ==
  LET x == Words(a) y == Words(b)
  IN Len(x) = Len(y) /\ \A w \in Range(x) \cup Range(y) : Count(x, w) = Count(y, w)

HasSub(s, t) == \E i \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t
Starts(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t

(* ------------------------------------------------------------- numbers    *)
DigitVal == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
  CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
    [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
RECURSIVE DigitsVal(_, _, _)
DigitsVal(s, i, acc) == IF i > Len(s) THEN acc ELSE DigitsVal(s, i + 1, acc * 10 + DigitVal[Ch(s, i)])
Unsigned(s) == IF s # "" /\ (Ch(s, 1) = "-" \/ Ch(s, 1) = "+") THEN SubSeq(s, 2, Len(s)) ELSE s
IsInt(s) == LET u == Unsigned(s) IN u # "" /\ \A i \in 1..Len(u) : Ch(u, i) \in DOMAIN DigitVal
(* past what TLC counts: Huge stands for every number that a 64 bit integer   *)
(* holds, OverHuge for the others                                            *)
Huge == 2147483000
OverHuge == 2147483600
RECURSIVE DigitsLeq(_, _, _)
DigitsLeq(s, t, i) == i > Len(s) \/ DigitVal[Ch(s, i)] < DigitVal[Ch(t, i)] \/ (Ch(s, i) = Ch(t, i) /\ DigitsLeq(s, t, i + 1))
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN NoZeros(SubSeq(s, 2, Len(s))) ELSE s
Int64(u) == Len(u) < 19 \/ (Len(u) = 19 /\ DigitsLeq(u, "9223372036854775807", 1))
IntVal(s) ==
  LET u == NoZeros(Unsigned(s))
      v == IF Len(u) > 10 \/ (Len(u) = 10 /\ DigitVal[Ch(u, 1)] > 1) THEN (IF Int64(u) THEN Huge ELSE OverHuge) ELSE DigitsVal(u, 1, 0)
  IN IF s # "" /\ Ch(s, 1) = "-" THEN -v ELSE v
Str(n) == ToString(n)

(* ------------------------------------------------------------- PKCE       *)
RECURSIVE Dbl(_, _)
Dbl(s, n) == IF n = 0 THEN s ELSE Dbl(s \o s, n - 1)
Verifier128 == Dbl("0123456789abcdefghijklmnopqrstuv", 2)
S256(v) ==
  CASE v = "verif-1" -> "3C3SWJlKlYKxTy2_fmouuk97Bi_H9MmqehIavOgnXeE"
    [] v = "V2" -> "R8_l64raDnSS2GprR9yT41TDKvSjz0ieDGUGfLSCd9k"
    [] v = "dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk" -> "E9Melhoa2OwvFrEMTJguCHaoeK1t8URWbuGJSstw-cM"
    [] v = "a" -> "ypeBEsobvcr6wjGzmiPcTaeG7_gUfE5yuYB3ha_uSLs"
    [] v = "v w+x" -> "osU1pU_VrZpj0rHiPUU3WmFMvKmz3slxhjkzHkOr75c"
    [] v = Verifier128 -> "1MASDxYLN__CguxpBfRRXVrqHTvapVxCdkgLypC0EFE"
    [] v = "xx>>??yy" -> "UqXQIXtfBqlf6DpQ_qTbylgs4UbuVySDTW23nn32mc4"
    [] OTHER -> "?"

(* ------------------------------------------------------------- requests   *)
RECURSIVE Look(_, _, _)
Look(l, k, i) == IF i > Len(l) THEN "" ELSE IF l[i].k = k THEN l[i].v ELSE Look(l, k, i + 1)
HasBody(rq) == rq.m \in {"POST", "PUT", "PATCH"}
PostParam(rq, k) == IF HasBody(rq) THEN Look(rq.b, k, 1) ELSE ""
(* a parameter of the request: the form body first, then the query           *)
Param(rq, k) == IF HasBody(rq) THEN Look(rq.b \o rq.q, k, 1) ELSE Look(rq.q, k, 1)

IdxBy(l, P(_)) == IF \E i \in DOMAIN l : P(l[i]) THEN CHOOSE i \in DOMAIN l : P(l[i]) ELSE 0

ClientIdx(w, id) == IdxBy(w.clients, LAMBDA c : c.id = id)
SessIdx(st, code) == IdxBy(st.sess, LAMBDA s : s.code = code)
InfoIdx(st, id) == IdxBy(st.infos, LAMBDA i : i.id = id)
InfoOf(st, uid, cid) == IdxBy(st.infos, LAMBDA i : i.uid = uid /\ i.cid = cid)
TokIdx(st, at) == IF at = "" THEN 0 ELSE IdxBy(st.toks, LAMBDA t : t.at = at)
RTokIdx(st, rt) == IF rt = "" THEN 0 ELSE IdxBy(st.toks, LAMBDA t : t.rt = rt)

(* ------------------------------------------------------------- JWTs       *)
Algs == {"HS256","HS384","HS512","RS256","RS384","RS512","PS256","PS384","PS512","ES256","none"}
KeyFits(alg, key) ==
  \/ alg \in {"HS256","HS384","HS512"} /\ (Starts(key, "hs:") \/ Starts(key, "pubpem:"))
  \/ alg \in {"RS256","RS384","RS512","PS256","PS384","PS512"} /\ Starts(key, "rsa")
  \/ alg = "ES256" /\ Starts(key, "ec")
ClaimIdx(d, n) == IdxBy(d.claims, LAMBDA c : c.n = n)
HasClaim(d, n) == ClaimIdx(d, n) # 0
Claim(d, n) == d.claims[ClaimIdx(d, n)]
ClaimStr(d, n) == IF HasClaim(d, n) /\ Claim(d, n).t = "s" THEN Claim(d, n).v ELSE ""
IsNum(d, n) == HasClaim(d, n) /\ Claim(d, n).t \in {"i", "f"}
IsStr(d, n) == HasClaim(d, n) /\ Claim(d, n).t = "s"
(* well formed: parses into three JSON-bearing parts                         *)
WellFormed(d) == d.form \in {"ok", "tampered", "nosig", "cutsig"}
SigMeth(d) == IF d.smeth = "" THEN d.alg ELSE d.smeth
(* the signature verifies under `key` by the algorithm the header names      *)
SignedBy(d, key) ==
  /\ d.form = "ok"
  /\ d.key = key
  /\ d.alg # "none"
  /\ SigMeth(d) = d.alg
  /\ KeyFits(d.alg, key)
=============================================================================
