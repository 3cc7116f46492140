------------------------------- MODULE KeysGen --------------------------------
(* State machine of registrations and publications, checked by TLC; its      *)
(* behaviours are run against the code.                                      *)
EXTENDS Keys, Json, IOUtils, SequencesExt, TLC

Depth == CHOOSE n \in 0..40 : ToString(n) = IOEnv.DEPTH
Wide == IOEnv.PROFILE = "wide"
Kids == IF Wide THEN {"k1", "k2", "", "K1", "k1 ", "a\"b<&>\\", "~00E9~~4E16~", "k/1+=", "kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk"}
        ELSE {"k1", "k2", ""}
Pubs == IF Wide THEN {"a", "b", "a3", "big", "odd", "small", "ff", "zero", "p", "q"} ELSE {"a", "a3"}
Bad == {"long", "cut", "open", "priv", "pkcs8", "privaspub", "ec", "garbage", "noder", "empty", "nofile"}
Good == PublicSources
Hows == {"text", "file"}
O0 == [op |-> "", kid |-> "", how |-> "", src |-> "", key |-> "", m |-> ""]
Real(op) == (op.src \in {"priv", "privcrlf", "pkcs8", "privaspub"} => op.key \in {"p", "q"}) /\ (op.src = "nofile" => op.how = "file")
            /\ (op.op = "private" => op.src \notin {"pkcs8", "privaspub"})
Adds == [op : {"add"}, kid : Kids, how : Hows, src : {"pub"}, key : Pubs, m : {"", "other"}]
        \cup {[O0 EXCEPT !.op = "add", !.kid = "k1", !.how = "file", !.src = b, !.key = "p"] : b \in Bad}
Publish == [O0 EXCEPT !.op = "publish", !.m = "GET"]
Reads == {[O0 EXCEPT !.op = "read", !.kid = k] : k \in Kids}
Loads == {op \in [op : {"public", "private"}, kid : {""}, how : Hows, src : Good \cup Bad \cup PrivateSources, key : {"p", "q", "big", "zero", "odd"}, m : {""}] : Real(op)}

VARIABLES s, hist
vars == <<s, hist>>
Init == s = Start /\ hist = <<>>
Do(op) == s' = NextKeys(s, op) /\ hist' = Append(hist, op)
Next ==
  /\ Len(hist) < Depth
  /\ IF Wide
     \* simulated: one draw per kind of step
     THEN \E kind \in {RandomElement(1..9)} :
          \E kid \in {RandomElement(Kids)}, how \in {RandomElement(Hows)}, good \in {RandomElement(Good)}, bad \in {RandomElement(Bad)},
             priv \in {RandomElement(PrivateSources)}, key \in {RandomElement(Pubs)}, pair \in {RandomElement({"p", "q"})}, old \in {RandomElement(Ids(s.doc) \cup {"k1"})} :
            CASE kind \in 1..4 -> Do([O0 EXCEPT !.op = "add", !.kid = kid, !.how = how, !.src = good, !.key = key])
              [] kind = 5 -> Do([O0 EXCEPT !.op = "add", !.kid = kid, !.how = IF bad = "nofile" THEN "file" ELSE how, !.src = bad, !.key = pair])
              [] kind = 6 -> Do([O0 EXCEPT !.op = "add", !.kid = kid, !.how = how, !.src = "pub", !.key = key, !.m = "other"])
              [] kind = 7 -> Do(Publish)
              [] kind = 8 -> IF s.out THEN Do([O0 EXCEPT !.op = "read", !.kid = old]) ELSE Do(Publish)
              [] OTHER -> IF how = "file" THEN Do([O0 EXCEPT !.op = "public", !.how = how, !.src = IF kid = "k1" THEN bad ELSE good, !.key = pair])
                        ELSE Do([O0 EXCEPT !.op = "private", !.how = how, !.src = IF kid = "k1" THEN "pub" ELSE priv, !.key = pair])
     ELSE \/ \E op \in Adds : Do(op)
          \/ Do(Publish)
          \/ s.out /\ \E op \in Reads : Do(op)
Spec == Init /\ [][Next]_vars

(* every history ends with a publication and reading everything back         *)
Whole == hist \o <<Publish>> \o SetToSeq(Reads) \o
         (IF hist = <<>> THEN SetToSeq(Loads) ELSE <<>>)
Export == (hist = <<>> \/ Len(hist) = Depth) => PrintT("HIST|" \o ToJson([ops |-> Whole]))

(* the last registration of a key id is the one that stands, nothing else is published *)
LastOf(k) == LET is == {i \in 1..Len(hist) : hist[i].op = "add" /\ hist[i].kid = k /\ HoldsPublic(hist[i]) /\ hist[i].m # "other"}
             IN IF is = {} THEN "" ELSE hist[CHOOSE i \in is : \A j \in is : j <= i].key
RegisteredAsAsked == /\ \A k \in Kids : LastOf(k) = IF k \in Ids(s.reg) THEN Of(s.reg, k) ELSE ""
                     /\ \A e, f \in s.reg : e.kid = f.kid => e = f
PublishedWasRegistered == \A e \in s.doc : \E i \in 1..Len(hist) : hist[i].op = "add" /\ hist[i].kid = e.kid /\ hist[i].key = e.key
=============================================================================
