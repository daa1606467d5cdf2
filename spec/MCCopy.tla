------------------------------- MODULE MCCopy -------------------------------
(***************************************************************************)
(* An object is read from a text; questions are asked to it (what it       *)
(* answers may be remembered) and it is copied, with all or none of what   *)
(* it remembers, in its process or in another, at any moment. Each object  *)
(* answers as the text does: the answers depend on nothing else, except    *)
(* the hash, which is the one of the text in the process of the object.    *)
(***************************************************************************)
EXTENDS IEMLDeco, Json

CONSTANTS Texts, Asks, Hows, Objects, Depth

ASSUME TLCSet(51, [t \in Texts |-> UParse(t)])
Unit(t) == TLCGet(51)[t]

\* the answer of the text
Answer(t, q, p) ==
  CASE q = "text" -> <<Unit(t).s>>
    [] q = "ss" -> TLCEval(SetToSeq(USSText(Unit(t))))
    [] q = "valid" -> <<IF UCheck(Unit(t)) THEN "yes" ELSE "no">>
    [] q = "paths" -> IF HasPaths(Unit(t)) THEN SetToSeq({PathText(z[1]) : z \in UPaths(Unit(t), FALSE)}) ELSE <<>>
    [] q = "same" -> <<"hash of", Unit(t).s, ToString(p)>>

VARIABLES t, objs, hist
vars == <<t, objs, hist>>

Init == /\ t \in Texts
        /\ objs = <<[p |-> 1, mem |-> [q \in {} |-> <<>>]]>>
        /\ hist = <<>>

Ask(i, q) == LET o == objs[i]
                 a == IF q \in DOMAIN o.mem THEN o.mem[q] ELSE Answer(t, q, o.p)
             IN /\ objs' = [objs EXCEPT ![i].mem = [z \in DOMAIN @ \cup {q} |-> IF z = q THEN a ELSE @[z]]]
                /\ hist' = Append(hist, [a |-> "ask", o |-> i, w |-> q])
\* a hash does not leave the process
Kept(mem, how) == {q \in DOMAIN mem : how # "away" \/ q # "same"}
Copy(i, how) == /\ Len(objs) < Objects
                /\ \E K \in {{}, Kept(objs[i].mem, how)} :
                     objs' = Append(objs, [p |-> IF how = "away" THEN 3 - objs[i].p ELSE objs[i].p, mem |-> [q \in K |-> objs[i].mem[q]]])
                /\ hist' = Append(hist, [a |-> "copy", o |-> i, w |-> how])
Next == /\ Len(hist) < Depth
        /\ UNCHANGED t
        /\ \E i \in DOMAIN objs : (\E q \in Asks : Ask(i, q)) \/ (\E how \in Hows : Copy(i, how))
Spec == Init /\ [][Next]_vars
View == <<t, objs, Len(hist)>>

\* whatever is remembered is the answer of the text, in the process of the object
Same == \A i \in DOMAIN objs : \A q \in DOMAIN objs[i].mem : objs[i].mem[q] = Answer(t, q, objs[i].p)
\* asking or copying an object changes nothing of the others
Apart == [][\A i \in DOMAIN objs : objs'[i].p = objs[i].p /\ \A q \in DOMAIN objs[i].mem : q \in DOMAIN objs'[i].mem /\ objs'[i].mem[q] = objs[i].mem[q]]_vars

Emit == Len(hist') < Depth \/ (\A i \in DOMAIN hist' : hist'[i].a = "ask") \/ PrintT("CASE " \o ToJson([t |-> t, hist |-> hist']))
=============================================================================
