--------------------------------- MODULE Gen ---------------------------------
EXTENDS GenChange, Json, IOUtils

(* FAMS: words "family:K"                                                    *)
FamWords == SelectSeq(Words(IOEnv.FAMS), LAMBDA x : x # "")
FamName(x) == SubSeq(x, 1, Len(x) - 2)
FamK(x) == DigitVal[Ch(x, Len(x))]

(* For K > 2 the enumeration is sampled.  CAP: how many draws, SEED: which.  *)
Num(n) == IF n \in DOMAIN IOEnv THEN IntVal(IOEnv[n]) ELSE 0
Cap == Num("CAP")
Seed == Num("SEED")
(* all of departure two and less, the products that go together (Focus), and  *)
(* CAP draws of up to k departures                                           *)
Focus(n) ==
  CASE n = "code" -> <<
         <<<<"cred", 1..3>>, <<"code", {1, 5, 6}>>, <<"ruri", {1, 4}>>, <<"pkce", {1, 5, 14}>>, <<"age", {1, 3}>>, <<"info", {1, 2, 4}>>, <<"scope", 1..3>>>>,
         <<<<"tok", {1, 6, 9}>>, <<"scope", {1, 3, 4}>>, <<"id", {1, 2, 5}>>, <<"nonce", {1, 2}>>, <<"authtime", {1, 2}>>, <<"idttl", {1, 3}>>, <<"pkce", {1, 6}>>>>>>
    [] n = "refresh" -> <<
         <<<<"cred", 1..3>>, <<"rt", {1, 5, 7}>>, <<"age", {1, 3}>>, <<"info", {1, 2, 4}>>, <<"scope", {1, 3, 5}>>, <<"tok", {1, 5, 6, 7, 9}>>, <<"front", 1..2>>>>>>
    [] n = "password" -> <<
         <<<<"user", 1..20>>, <<"pass", 1..20>>, <<"tr", 1..2>>>>,
         <<<<"cred", 1..3>>, <<"user", {1, 4, 7}>>, <<"pass", {1, 4}>>, <<"scope", {1, 2, 5, 7}>>, <<"perm", 1..3>>, <<"tok", {1, 8, 10}>>, <<"had", 1..2>>>>>>
    [] n = "clientcred" -> <<
         <<<<"cred", 1..3>>, <<"owner", 1..3>>, <<"scope", {1, 2, 5, 7}>>, <<"perm", 1..3>>, <<"tok", {1, 8, 10}>>, <<"had", 1..3>>>>>>
    [] n = "jwt" -> <<
         <<<<"sig", {1, 2, 5}>>, <<"exp", {1, 3}>>, <<"iat", {1, 2, 4}>>, <<"nbf", {1, 3}>>, <<"jti", {1, 2, 5}>>, <<"aud", {1, 3}>>, <<"sub", {1, 3, 5}>>, <<"scope", {1, 7}>>>>>>
    [] n = "cassert" -> <<
         <<<<"sig", {1, 2, 5}>>, <<"exp", {1, 3}>>, <<"iat", {1, 2, 4}>>, <<"nbf", {1, 3}>>, <<"jti", {1, 2, 5}>>, <<"aud", {1, 3}>>, <<"sub", {1, 2, 5}>>, <<"secret", 1..2>>>>>>
    [] n = "auth" -> <<<<<<"cred", 1..200>>, <<"gt", 1..5>>, <<"te", {1, 4}>>, <<"cl", {1, 4}>>>>>>
    [] n = "res" -> <<
         <<<<"from", 1..3>>, <<"place", {1, 2, 4, 5, 6, 8, 9, 10, 15, 16, 17, 20}>>, <<"tok", {1, 4, 9}>>, <<"age", {1, 3}>>, <<"scoped", 1..2>>>>,
         <<<<"tok", {1, 9}>>, <<"age", {1, 3}>>, <<"info", {1, 2, 4}>>, <<"scope", 1..4>>, <<"scoped", 1..2>>, <<"paths", 1..8>>, <<"hdrs", 1..2>>>>,
         <<<<"scoped", {2}>>, <<"paths", 1..11>>, <<"path", 1..10>>, <<"scope", 1..8>>>>>>
    [] n = "avalid" -> <<
         <<<<"cid", {1, 5}>>, <<"ruri", {1, 4, 14, 16}>>, <<"dup", 1..14>>, <<"meth", 1..2>>, <<"tr", 1..3>>>>,
         <<<<"rt", 1..7>>, <<"rmode", 1..4>>, <<"pol", {1, 3, 4, 5, 6, 7, 8}>>, <<"login", 1..2>>>>,
         <<<<"rt", 1..7>>, <<"scope", {1, 2, 4, 5, 7, 8, 9}>>, <<"prompt", {1, 2, 4}>>, <<"pol", 1..2>>, <<"nonce", 1..2>>, <<"scopes", {1, 8, 9}>>>>,
         <<<<"rt", 1..7>>, <<"flows", 1..8>>, <<"scopes", 1..9>>>>,
         <<<<"rt", {1, 2, 7}>>, <<"scope", 1..24>>, <<"prompt", 1..17>>, <<"pol", 1..2>>>>,
         <<<<"maxage", 1..40>>, <<"pol", {1, 9, 10, 15}>>, <<"rt", {1, 3}>>>>,
         <<<<"display", {1, 2, 8}>>, <<"maxage", {1, 3, 10}>>, <<"prompt", {1, 4, 8}>>, <<"nonce", {1, 2, 5}>>, <<"verifier", {1, 2, 5}>>, <<"rt", {1, 7}>>>>>>
    [] n = "ainter" -> <<
         <<<<"maxage", 1..14>>, <<"at", 1..10>>, <<"pol", {1, 7, 8}>>, <<"noconsent", 1..2>>>>,
         <<<<"login", 1..2>>, <<"at", {1, 3, 4}>>, <<"fromlogin", 1..2>>, <<"maxage", {1, 7}>>, <<"prompt", {1, 2, 3, 5}>>, <<"noconsent", 1..2>>, <<"given", 1..3>>, <<"rt", {1, 2, 5}>>>>,
         <<<<"uid", 1..2>>, <<"auid", 1..2>>, <<"act", 1..2>>, <<"given", {1, 2, 3, 5}>>, <<"scope", 1..6>>, <<"noconsent", 1..2>>, <<"rt", {1, 3, 6}>>>>>>
    [] n \in {"anone", "ahint", "alogin"} -> <<
         <<<<"maxage", 1..14>>, <<"at", 1..10>>, <<"pol", {1, 5, 6}>>>>, <<<<"given", 1..19>>, <<"pol", 1..4>>, <<"scope", 1..7>>>>,
         <<<<"none", 1..4>>, <<"idhint", 1..2>>, <<"hint", {1, 2, 14}>>, <<"lghint", 1..3>>, <<"login", 1..2>>, <<"given", {1, 2, 11}>>, <<"maxage", {1, 5}>>, <<"rt", {1, 7}>>>>>>
    [] n = "adone" -> <<
         <<<<"rt", 1..7>>, <<"rmode", 1..4>>, <<"act", 1..2>>, <<"prompt", {1, 3}>>, <<"given", 1..2>>, <<"id", {1, 2, 4}>>, <<"scope", {1, 2, 4}>>>>>>
    [] n = "acont" -> <<
         <<<<"act", 1..2>>, <<"prt", 1..7>>, <<"mode", 1..3>>, <<"scope", 1..2>>, <<"verifier", 1..2>>, <<"nonce", 1..2>>, <<"state", 1..2>>, <<"cid", 1..2>>>>>>
    [] OTHER -> <<>>
Mix(j, i) == LET y == ((j % 46337) * 21001 + i * 977 + (Seed % 1000) * 6131) % 46337
                 z == (y * y + j \div 97) % 46337
             IN (z * 30011 + i * 13 + j) % 46337
Draw(D, j, k) ==
  LET l == [i \in 1..k |-> D[(Mix(j, i) % Len(D)) + 1]]
      dimset == {l[i][1] : i \in 1..k}
      first(d) == l[CHOOSE i \in 1..k : l[i][1] = d /\ \A m \in 1..(i - 1) : l[m][1] # d]
      ds == SetToSortSeq(dimset, <)
  IN [i \in DOMAIN ds |-> first(ds[i])]
Sampled(dims, k) ==
  LET D == SetToSeq(Departures(dims))
  IN {Draw(D, j, k) : j \in 1..Cap}
Build(n, dims, k, mk(_, _)) ==
  LET A == [pos |-> Positions(dims), dims |-> dims]
      groups == Focus(n)
      all == SetToSeq(Assigns(dims, IF k < 2 THEN k ELSE 2)
               \cup (IF k < 2 THEN {} ELSE UNION {Product(dims, groups[i]) : i \in DOMAIN groups})
               \cup (IF k <= 2 THEN {} ELSE Sampled(dims, k)))
  IN [i \in DOMAIN all |-> mk(A, all[i])]
Family(x) ==
  LET n == FamName(x) k == FamK(x)
  IN CASE n = "code" -> Build(n, CodeDims, k, CodeSc)
       [] n = "refresh" -> Build(n, RefreshDims, k, RefreshSc)
       [] n = "password" -> Build(n, PwDims, k, PwSc)
       [] n = "clientcred" -> Build(n, CcDims, k, CcSc)
       [] n = "jwt" -> Build(n, JwtGrantDims, k, JwtGrantSc)
       [] n = "cassert" -> Build(n, CAssertDims, k, CAssertSc)
       [] n = "auth" -> Build(n, AuthFamDims, k, AuthSc)
       [] n = "res" -> Build(n, ResDims, k, ResSc)
       [] n = "avalid" -> Build(n, AValidDims, k, AValidSc)
       [] n = "ainter" -> Build(n, AInterDims, k, AInterSc)
       [] n = "anone" -> Build(n, ANoneDims, k, ANoneSc)
       [] n = "ahint" -> Build(n, AHintDims("idhint"), k, ANoneSc)
       [] n = "alogin" -> Build(n, AHintDims("loginhint"), k, ANoneSc)
       [] n = "adone" -> Build(n, ADoneDims, k, ADoneSc)
       [] n = "iso" -> Iso(Seed, k)
       [] n = "free" -> Free(k * 300, Seed)
       [] n = "change" -> Changes
       [] n = "wall" -> Wall
       [] n = "acont" -> Build(n, AContDims, k, AContSc)

(* one file per family; the worlds are in line and interned afterwards       *)
Out(i) == LET s == Family(FamWords[i])
          IN ndJsonSerialize(IOEnv.OUT \o "." \o FamName(FamWords[i]), s)
VARIABLE x
Init == x \in DOMAIN FamWords
Next == Out(x) /\ FALSE /\ x' = x
=============================================================================
