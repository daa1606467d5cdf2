------------------------------ MODULE IEMLStore ------------------------------
(***************************************************************************)
(* The database: a folder of files, one file of descriptors (".desc") and  *)
(* one file of structure (".ieml") for each USL.                           *)
(* A store is a function from <<kind, canonical text>> to the sequence of  *)
(* rows of this file; the file exists iff it is in the domain.             *)
(*   kind "desc": rows <<language, class, value>>                          *)
(*   kind "ieml": rows <<key, value>>                                      *)
(***************************************************************************)
EXTENDS IEMLDict

Langs == {"fr", "en"}
Classes == {"translations", "tags", "comments", "rdf_repositories"}
Keys == {"inhibition", "is_root", "is_ignored"}
Inhibitable == {"father_substance", "father_attribute", "father_mode", "opposed", "associated", "crossed", "twin"}

-----------------------------------------------------------------------------
(* the USLs of the histories: their writings, canonical text, type, whether they are paradigms, their morphemes *)

LongA == "wa.-wa.-wa.-'wa.-wa.-wa.-'wa.-wa.-wa.-',wa.-wa.-wa.-'wa.-wa.-wa.-'wa.-wa.-wa.-',wa.-wa.-wa.-'wa.-wa.-"
Wide == "漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢漢"
LongB == "-'wa.-wa.-wa.-',_"

\* g: the morphemes that give its grammatical class
UC(i, t, p, m, g, raws) == [ieml |-> i, type |-> t, par |-> p, m |-> m, g |-> g, raws |-> raws \cup {i}]
U(i, t, p, m, raws) == UC(i, t, p, m, m, raws)
Univ == {
  U("a.", "morpheme", FALSE, {"a."}, {"A:B:.", "A:B:E:."}),
  U("y.", "morpheme", FALSE, {"y."}, {"U:S:."}),
  U("O:M:.", "morpheme", TRUE, {"O:M:."}, {"O:M:E:."}),
  U("O:M:.+M:O:.", "morpheme", TRUE, {"O:M:.+M:O:."}, {"M:O:.+O:M:."}),
  U("M:O:.", "morpheme", TRUE, {"M:O:."}, {}),
  U("O:O:.", "morpheme", TRUE, {"O:O:."}, {}),
  U(LongA \o "wa." \o LongB, "morpheme", FALSE, {LongA \o "wa." \o LongB}, {}),
  U(LongA \o "wo." \o LongB, "morpheme", FALSE, {LongA \o "wo." \o LongB}, {}),
  U(LongA \o "O:O:." \o LongB, "morpheme", TRUE, {LongA \o "O:O:." \o LongB}, {}),
  U("wo. wa.", "polymorpheme", FALSE, {"wo.", "wa."}, {"wa. wo.", "wa.  wo."}),
  U("wo. wa. y.", "polymorpheme", FALSE, {"wo.", "wa.", "y."}, {"y. wa. wo."}),
  UC("m1(wo. wa. y.)", "polymorpheme", TRUE, {"wo.", "wa.", "y."}, {}, {"m1(wa. wo. y.)"}),
  UC("wo. m1(wa. y.)", "polymorpheme", TRUE, {"wo.", "wa.", "y."}, {"wo."}, {"wo. m1(y. wa.)"}),
  U("()(a.)", "lexeme", FALSE, {"a."}, {"() (a.)"}),
  UC("(wo.)(a. b.)", "lexeme", FALSE, {"wo.", "a.", "b."}, {"a.", "b."}, {"(wo.)(b. a.)"}),
  UC("(m1(a. b.))(wo.)", "lexeme", TRUE, {"wo.", "a.", "b."}, {"wo."}, {"(m1(b. a.))(wo.)"}),
  U("()(" \o LongA \o "wo." \o LongB \o ")", "lexeme", FALSE, {LongA \o "wo." \o LongB}, {}),
  U("()(" \o LongA \o "wo." \o LongB \o " " \o LongA \o "wa." \o LongB \o ")", "lexeme", FALSE, {LongA \o "wo." \o LongB, LongA \o "wa." \o LongB}, {}),
  U("()(" \o LongA \o "wo." \o LongB \o " " \o LongA \o "y." \o LongB \o ")", "lexeme", FALSE, {LongA \o "wo." \o LongB, LongA \o "y." \o LongB}, {}),
  UC("[! E:A:.  ()(m1(a. b.)) > E:A:. E:A:. (m1(wo. wa. y. e.))(m1(a. s. b. t.))]", "word", TRUE,
    {"E:A:.", "a.", "b.", "wo.", "wa.", "y.", "e.", "s.", "t."}, {}, {}),
  U("[! E:A:.  ()(y.) > E:A:. E:A:. ()(o.)] [>role>! E:A:.>content>constant>y. \"z\"] [>role>E:A:. E:A:.>content>constant>o. \"t t\"]", "word", FALSE,
    {"E:A:.", "y.", "o."}, {}),
  UC("[! E:A:.  ()(m1(a. b.)) > E:A:. E:A:. ()(o.)] [>role>! E:A:.>content>group_0 1>a. \"z\"] [>role>E:A:. E:A:.>content>constant>o. \"t t\"]", "word", TRUE,
    {"E:A:.", "a.", "b.", "o."}, {}, {}),
  U("[! E:A:.  (wa.)]", "word", FALSE, {"E:A:.", "wa."}, {"[! E:A:. (wa.)]"}),
  U("[! E:A:.  ()(m1(a. b.))]", "word", TRUE, {"E:A:.", "a.", "b."}, {"[! E:A:. ()(m1(b. a.))]"}),
  U("[! E:A:.  (wo.)(a.) > E:A:. E:A:. ()(b.)]", "word", FALSE, {"E:A:.", "wo.", "a.", "b."}, {"[! E:A:. (wo.)(a.) > E:A:. E:A:. ()(b.)]"}),
  U("[! E:A:.  ()(y.) > E:A:. E:A:. ()(o.)] [>role>E:A:. E:A:.>content>constant>o. \"t t\"]", "word", FALSE,
    {"E:A:.", "y.", "o."}, {}),
  U("[! E:A:.  ()(y.) > E:A:. E:A:. ()(o.)] [>role>E:A:. E:A:.>content>constant>o. \"t u\"]", "word", FALSE,
    {"E:A:.", "y.", "o."}, {}),
  U("[! E:A:.  ()(y.)] [>role>! E:A:.>content>constant>y. \"x/y\"]", "word", FALSE, {"E:A:.", "y."}, {}),
  U("[! E:A:.  ()(y.)] [>role>! E:A:.>content>constant>y. \"x|y\"]", "word", FALSE, {"E:A:.", "y."}, {}),
  U("()(y.) [> \"../\\\"x\\\\c/\r\"]", "lexeme", FALSE, {"y."}, {}),
  U("()(y.) [> \"b\\\\c\"]", "lexeme", FALSE, {"y."}, {}),
  U("()(y.) [> \"b\nc\"]", "lexeme", FALSE, {"y."}, {}),
  U("y. o. [> \"/\"]", "polymorpheme", FALSE, {"y.", "o."}, {}),
  U("()(y.) [> \"" \o Wide \o Wide \o "\"]", "lexeme", FALSE, {"y."}, {}),
  U("()(y.) [> \"" \o Wide \o Wide \o "漢\"]", "lexeme", FALSE, {"y."}, {})
}
InUniv(raw) == \E u \in Univ : raw \in u.raws
OfRaw(raw) == CHOOSE u \in Univ : raw \in u.raws

\* what the parser of USLs makes of a writing: a USL of the universe or a morpheme; "" if it is refused
Canon(raw) == IF InUniv(raw) THEN OfRaw(raw).ieml ELSE LET x == Parse(raw) IN IF IsErr(x) THEN "" ELSE x.s
About(ieml) == IF InUniv(ieml) THEN OfRaw(ieml)
               ELSE U(ieml, "morpheme", Parse(ieml).n # 1, {ieml}, {})

\* the name of the grammatical class of a USL; every word of the universe has the focus on a dependant quality
ClassName(i) ==
  LET u == About(i) IN
  IF u.type = "word" THEN "E:.b.E:B:.-"
  ELSE LET c == {Parse(t).g : t \in u.g} IN IF 2 \in c THEN "Noun" ELSE IF 1 \in c THEN "Verb" ELSE "Auxiliary"
TypeRank(t) == CASE t = "morpheme" -> 0 [] t = "polymorpheme" -> 1 [] t = "lexeme" -> 2 [] t = "word" -> 3

-----------------------------------------------------------------------------
(* values *)
RECURSIVE StripL(_), StripR(_), NoLF(_)
White == {" ", "\t", "\n", "\r", "\f"}
StripL(v) == IF v # "" /\ SubSeq(v, 1, 1) \in White THEN StripL(SubSeq(v, 2, Len(v))) ELSE v
StripR(v) == IF v # "" /\ SubSeq(v, Len(v), Len(v)) \in White THEN StripR(SubSeq(v, 1, Len(v) - 1)) ELSE v
NoLF(v) == IF v = "" THEN "" ELSE (IF SubSeq(v, 1, 1) = "\n" THEN "\\n" ELSE SubSeq(v, 1, 1)) \o NoLF(SubSeq(v, 2, Len(v)))
\* a value is stored without the spaces around it, on one line
Norm(v) == NoLF(StripL(StripR(v)))

\* booleans are given as Python ones ("bool:True") or as texts
BoolOf(v) == IF v \in {"True", "true", "TRUE", "bool:True"} THEN "True"
             ELSE IF v \in {"False", "false", "FALSE", "bool:False"} THEN "False" ELSE ""
StructValue(k, v) == IF k = "inhibition" THEN (IF v \in Inhibitable THEN v ELSE "") ELSE BoolOf(v)

-----------------------------------------------------------------------------
(* edits; a field "" is a missing argument, e.hv tells whether the value is given *)

Empty == << >>
Files(st) == DOMAIN st
RowsOf(st, f) == IF f \in DOMAIN st THEN st[f] ELSE <<>>
SetFile(st, f, rows) == TLCEval([g \in (DOMAIN st) \cup {f} |-> IF g = f THEN rows ELSE st[g]])
DelFile(st, f) == TLCEval([g \in (DOMAIN st) \ {f} |-> st[g]])

Done(st) == [ok |-> TRUE, st |-> st]
Refused(st) == [ok |-> FALSE, st |-> st]

AddDesc(st, e) ==
  LET i == Canon(e.i)
      v == Norm(e.v)
  IN IF i = "" \/ e.l \notin Langs \/ e.c \notin Classes THEN Refused(st)
     ELSE IF v = "" THEN Done(st)
     ELSE LET f == <<"desc", i>> IN Done(SetFile(st, f, Append(RowsOf(st, f), <<e.l, e.c, v>>)))

RemDesc(st, e) ==
  LET i == Canon(e.i)
      f == <<"desc", i>>
      v == Norm(e.v)
      gone(r) == /\ e.l \in {"", r[1]}
                 /\ e.c \in {"", r[2]}
                 /\ e.hv => r[3] = v
  IN IF i = "" \/ e.l \notin Langs \cup {""} \/ e.c \notin Classes \cup {""} THEN Refused(st)
     ELSE IF f \notin DOMAIN st THEN Done(st)
     ELSE IF e.l = "" /\ e.c = "" /\ ~e.hv THEN Done(DelFile(st, f))
     ELSE Done(SetFile(st, f, SelectSeq(st[f], LAMBDA r : ~gone(r))))

AddStruct(st, e) ==
  LET i == Canon(e.i)
      f == <<"ieml", i>>
      v == StructValue(e.k, e.v)
  IN IF i = "" \/ e.k \notin Keys \/ v = "" THEN Refused(st)
     ELSE Done(SetFile(st, f, Append(RowsOf(st, f), <<e.k, v>>)))

RemStruct(st, e) ==
  LET i == Canon(e.i)
      f == <<"ieml", i>>
      v == StructValue(e.k, e.v)
  IN IF i = "" \/ e.k \notin Keys \cup {""} \/ (e.k # "" /\ e.hv /\ v = "") THEN Refused(st)
     ELSE IF f \notin DOMAIN st THEN Done(st)
     ELSE IF e.k = "" THEN Done(DelFile(st, f))
     ELSE Done(SetFile(st, f, SelectSeq(st[f], LAMBDA r : ~(r[1] = e.k /\ (e.hv => r[2] = v)))))

\* other files (e.i: the path, e.v: one line); those whose path starts with a point are private, not part of the store
Private(path) == SubSeq(path, 1, 1) = "."
Put(st, e) == IF Private(e.i) THEN Done(st) ELSE Done(SetFile(st, <<"other", e.i>>, << <<e.v>> >>))
Unput(st, e) == IF <<"other", e.i>> \in DOMAIN st THEN Done(DelFile(st, <<"other", e.i>>)) ELSE Done(st)

Edit(st, e) == CASE e.a = "add" -> AddDesc(st, e)
                 [] e.a = "rem" -> RemDesc(st, e)
                 [] e.a = "sadd" -> AddStruct(st, e)
                 [] e.a = "srem" -> RemStruct(st, e)
                 [] e.a = "put" -> Put(st, e)
                 [] e.a = "unput" -> Unput(st, e)

-----------------------------------------------------------------------------
(* reading *)
Bag(q) == [x \in Range(q) |-> Cardinality({i \in DOMAIN q : q[i] = x})]
SameBag(p, q) == Bag(p) = Bag(q)
SameStore(a, b) == DOMAIN a = DOMAIN b /\ \A f \in DOMAIN a : SameBag(a[f], b[f])

\* the values of a key, as a sequence
Values(st, i, l, c) == LET r == SelectSeq(RowsOf(st, <<"desc", i>>), LAMBDA x : x[1] = l /\ x[2] = c) IN [k \in DOMAIN r |-> r[k][3]]
SValues(st, i, k) == LET r == SelectSeq(RowsOf(st, <<"ieml", i>>), LAMBDA x : x[1] = k) IN [j \in DOMAIN r |-> r[j][2]]

\* the USLs that have a descriptor
Listed(st) == {f[2] : f \in {g \in DOMAIN st : g[1] = "desc" /\ st[g] # <<>>}}
ListOf(st, type, par) == {i \in Listed(st) : /\ type \in {"", About(i).type}
                                             /\ (type # "" /\ par # "") => About(i).par = (par = "yes")}

\* where a file is: type, singular or paradigm, a prefix of its name, its name. Long names end with a hash (written #)
PrefixSize(t) == CASE t = "morpheme" -> 0 [] t = "polymorpheme" -> 5 [] t = "lexeme" -> 8 [] t = "word" -> 10
\* (as those that have a '/' or many characters of several bytes: a file name has at most 255 bytes, with its extension and what git adds to it)
RECURSIVE NBytes(_), NoSlash(_), HeadBytes(_, _)
NBytes(i) == IF i = "" THEN 0 ELSE (IF SubSeq(i, 1, 1) = "漢" THEN 3 ELSE 1) + NBytes(SubSeq(i, 2, Len(i)))
NoSlash(i) == IF i = "" THEN "" ELSE (IF SubSeq(i, 1, 1) = "/" THEN "|" ELSE SubSeq(i, 1, 1)) \o NoSlash(SubSeq(i, 2, Len(i)))
HeadBytes(i, k) == IF NBytes(SubSeq(i, 1, k)) <= 189 THEN SubSeq(i, 1, k) ELSE HeadBytes(i, k - 1)
NameOf(i) == IF Len(i) <= 100 /\ NoSlash(i) = i /\ NBytes(i) <= 200 THEN i
             ELSE NoSlash(HeadBytes(i, IF Len(i) < 89 THEN Len(i) ELSE 89)) \o "|#"
PathOf(f) == LET u == About(f[2])
                 n == NameOf(f[2])
                 k == PrefixSize(u.type)
                 pre == SubSeq(n, 1, IF Len(n) < k THEN Len(n) ELSE k)
             IN u.type \o (IF u.par THEN "/paradigm/" ELSE "/singular/") \o (IF pre = "" THEN "" ELSE pre \o "/")
                \o n \o (IF f[1] = "desc" THEN ".desc" ELSE ".ieml")

\* the dictionary of a store
ParOf(st) == ListOf(st, "morpheme", "yes")
StructRows(st) == UNION {{<<f[2], r[1], r[2]>> : r \in Range(st[f])} : f \in {g \in DOMAIN st : g[1] = "ieml"}}
StoreDict(st) == Dict(ParOf(st), StructRows(st))

\* the entries of the list of all USLs: those whose morphemes are in the dictionary
InDict(D, t) == \E x \in Range(D.scripts) : x.s = t
Entries(st, D) == {i \in Listed(st) : \A m \in About(i).m : InDict(D, m)}
=============================================================================
