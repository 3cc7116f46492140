--------------------------------- MODULE Keys ---------------------------------
(* The JWK endpoint and the key functions behind it: keys are registered     *)
(* from PEM text or files under key ids, the set is published, keys are read *)
(* back from the published document.  KeyStep judges an observed step.       *)
EXTENDS Naturals, Sequences, FiniteSets

(* what a PEM source holds, as a public and as a private key                 *)
PublicSources == {"pub", "crlf", "lead", "headers", "two"}
PrivateSources == {"priv", "privcrlf"}
HoldsPublic(op) == op.src \in PublicSources
HoldsPrivate(op) == op.src \in PrivateSources

(* reg: the registered keys under their ids; doc: the set at the last        *)
(* publication; out: whether there was one                                   *)
Start == [reg |-> {}, doc |-> {}, out |-> FALSE]
Ids(reg) == {e.kid : e \in reg}
Of(reg, kid) == (CHOOSE e \in reg : e.kid = kid).key
With(reg, kid, key) == {e \in reg : e.kid # kid} \cup {[kid |-> kid, key |-> key]}
(* M = "other": the registration is made at another endpoint object          *)
NextKeys(s, op) ==
  CASE op.op = "add" /\ op.m # "other" /\ HoldsPublic(op) -> [s EXCEPT !.reg = With(@, op.kid, op.key)]
    [] op.op = "publish" -> [s EXCEPT !.doc = s.reg, !.out = TRUE]
    [] OTHER -> s

If1(c, x) == IF c THEN {x} ELSE {}
KeyStep(s, op) ==
  LET o == op.obs IN
  CASE op.op = "add" ->
         If1(HoldsPublic(op) /\ o.refused, "a public key is refused") \cup If1(~HoldsPublic(op) /\ ~o.refused, "what is no RSA public key is registered")
    [] op.op = "publish" ->
         IF o.refused THEN {"publication fails"}
         ELSE If1(o.status # 200, "status") \cup If1(o.ctype \notin {"application/json", "application/jwk-set+json"}, "content type")
              \cup If1(~o.valid, "not a key set") \cup If1(~o.same, "requests get different documents")
              \cup If1({[kid |-> o.doc[i].kid, key |-> o.doc[i].key] : i \in DOMAIN o.doc} # s.reg, "keys of the document")
              \cup If1(Len(o.doc) # Cardinality(s.reg), "number of keys")
              \cup If1(\E i \in DOMAIN o.doc : o.doc[i].extra, "more than the public key is published")
    [] op.op = "read" ->
         IF op.kid \in Ids(s.doc) THEN If1(o.refused \/ o.key # Of(s.doc, op.kid), "key read back from the document")
         ELSE If1(~o.refused, "a key that is not in the document is read")
    [] op.op = "public" ->
         IF HoldsPublic(op) THEN If1(o.refused \/ o.key # op.key, "public key of a PEM") ELSE If1(~o.refused, "what is no RSA public key is loaded")
    [] op.op = "private" ->
         IF HoldsPrivate(op) THEN If1(o.refused \/ o.key # op.key, "private key of a PEM") ELSE If1(~o.refused, "what is no RSA private key is loaded")
    [] OTHER -> {"unknown step"}
=============================================================================
