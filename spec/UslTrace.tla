------------------------------ MODULE UslTrace ------------------------------
(* judges the observations made on the units of the language (C07, C11..C14, C18) *)
EXTENDS IEMLDeco, Walk

KindName(u) == CASE u.k = "S" -> "Script" [] u.k = "P" -> "PolyMorpheme" [] u.k = "L" -> "Lexeme" [] u.k = "W" -> "Word"

\* op "read": a text was read; again: the text of what is read from the canonical writing
ReadV(e) ==
  LET u == UParse(e.in) IN
  IF u.k = "U" THEN Failing(<< <<"a text is read or refused with CannotParse", e.ok \/ e.refused>> >>)
  ELSE IF u.k = "X" THEN Failing(<< <<"a text that is not a unit is refused with CannotParse", ~e.ok /\ e.refused>> >>)
  ELSE IF ~e.ok THEN {"a well formed text is read"}
  ELSE Failing(<< <<"kind of unit", e.kind = KindName(u)>>,
                  <<"canonical writing", e.out = u.s>>,
                  <<"the canonical writing is a fixed point", u.s = "" \/ e.again = u.s>>,
                  <<"equal and same hash as what is read back", e.eq>>,
                  <<"morphemes of the unit", e.morphs = Morphemes(u)>>,
                  <<"empty", e.empty = UIsEmpty(u)>>,
                  <<"grammatical class", u.k = "X" \/ e.cls = (CASE u.k = "S" -> ToString(u.m.g) [] u.k = "P" -> ToString(PMClass(u))
                                                [] u.k = "L" -> ToString(PMClass(u.c)) [] u.k = "W" -> WordClass(u))>> >>)

\* op "word": the entries of a word: e.roles the roles in order, e.lex their lexemes, e.focus
WordV(e) ==
  LET u == UParse(e.in) IN
  IF u.k # "W" THEN {}
  ELSE Failing(<< <<"the roles and lexemes of the word",
                    {<<JoinStr(u.e[i].a, " "), u.e[i].x.s>> : i \in DOMAIN u.e} = {<<e.list[i][1], e.list[i][2]>> : i \in DOMAIN e.list}
                    /\ Len(e.list) = Len(u.e)>>,
                  <<"the focus", e.focus = JoinStr(u.r, " ")>>,
                  <<"the context", e.ctx = u.x>>,
                  <<"the lexeme of a role", \A i \in DOMAIN e.get : \E j \in DOMAIN u.e : JoinStr(u.e[j].a, " ") = e.get[i][1] /\ u.e[j].x.s = e.get[i][2]>>,
                  <<"rebuilt from its entries", e.rebuilt = u.s>>,
                  <<"the components of the word", ~e.none /\ Range(e.parts) \ {"", "E:"} =
                      UNION {{u.e[i].x.s, u.e[i].x.f.s, u.e[i].x.c.s} \cup {m.s : m \in MorphSet(u.e[i].x)} : i \in DOMAIN u.e} \ {"", "E:"}>> >>)

\* op "made": built from its morphemes given in any order
MadeV(e) ==
  LET u == UParse(e.in) IN
  IF ~IsUsl(u) THEN {}
  ELSE Failing(<< <<"a unit is built from its parts", e.ok>>,
                  <<"canonical writing of what is built", e.out = u.s \/ (e.one /\ u.k = "S")>>,
                  <<"the arguments are not modified", e.same>> >>)

\* op "simplify": the empty branches, except on the way to the focus, are removed (words without junction)
SimplifyV(e) ==
  LET u == UParse(e.in) IN
  IF u.k # "W" \/ UIsEmpty(u) THEN {}
  ELSE Failing(<< <<"a simplified word", e.out = Simplify(u).s>> >>)

\* op "eq": equality of units is equality of their canonical writings
EqV(e) ==
  LET a == UParse(e.a)
      b == UParse(e.b)
  IN IF ~IsUsl(a) \/ ~IsUsl(b) \/ a.k # b.k THEN {}
     ELSE Failing(<< <<"equality", e.eq = (a.s = b.s) /\ e.ne = (a.s # b.s)>>,
                     <<"hash", a.s = b.s => e.hash>> >>)

\* a group without any morpheme: the variations of the unit are not specified
HasEmptyGroup(u) == CASE u.k = "S" -> FALSE
                      [] u.k = "P" -> \E i \in DOMAIN u.g : u.g[i].m = <<>>
                      [] u.k = "L" -> \E i \in DOMAIN (u.f.g \o u.c.g) : (u.f.g \o u.c.g)[i].m = <<>>
                      [] u.k = "W" -> \E j \in DOMAIN u.e : LET g == u.e[j].x.f.g \o u.e[j].x.c.g IN \E i \in DOMAIN g : g[i].m = <<>>

\* op "ss": singular sequences of a unit whose groups have a valid multiplicity
SSV(e) ==
  LET u == UParse(e.in) IN
  IF ~IsUsl(u) \/ ~URegular(u) \/ HasEmptyGroup(u) THEN {}
  ELSE IF ~e.ok THEN {"the singular sequences are computed"}
  ELSE LET S == USSText(u) IN
       Failing(<< <<"singular sequences", Range(e.ss) = S>>,
                  <<"no duplicate", Len(e.ss) = Cardinality(Range(e.ss))>>,
                  <<"set of singular sequences", Range(e.set) = S>>,
                  <<"cardinal and length", e.card = Cardinality(S) /\ e.len = e.card>>,
                  <<"is_singular", e.sing = (Cardinality(S) = 1)>>,
                  <<"a singular sequence is its own singular sequence", e.self>> >>)

\* op "in": containment
InV(e) ==
  LET a == UParse(e.a)
      b == UParse(e.b)
  IN IF ~IsUsl(a) \/ ~IsUsl(b) \/ ~URegular(a) \/ ~URegular(b) \/ HasEmptyGroup(a) \/ HasEmptyGroup(b) THEN {}
     ELSE Failing(<< <<"containment", e.res = (USSText(b) \subseteq USSText(a))>> >>)

\* op "check": validity
CheckV(e) ==
  LET u == UParse(e.in) IN
  IF ~IsUsl(u) THEN {}
  ELSE Failing(<< <<"validity", e.valid = UCheck(u)>>,
                  <<"the function and the method agree", e.method = e.valid>>,
                  <<"a decorated unit is valid if the unit is", e.deco = e.valid>>,
                  <<"an invalid unit is refused with ValueError", e.valid \/ e.err = "ValueError">> >>)

\* op "lt": order of a list of units
LtV(e) ==
  LET X == [i \in DOMAIN e.items |-> UParse(e.items[i])]
      J == DOMAIN X
  IN IF \E i \in J : ~IsUsl(X[i]) THEN {}
     ELSE IF ~e.ok THEN {"units are comparable"}
     ELSE Failing(<< <<"order", \A i \in J, j \in J : e.m[i][j] = ULt(X[i], X[j])>>,
                <<"greater", \A i \in J, j \in J : e.gt[i][j] = e.m[j][i]>>,
                <<"total", \A i \in J, j \in J : X[i].s # X[j].s => (e.m[i][j] # e.m[j][i])>>,
                <<"transitive", \A i \in J, j \in J, k \in J : e.m[i][j] /\ e.m[j][k] => e.m[i][k]>>,
                <<"sorting does not depend on the initial order", e.sorted1 = e.sorted2>>,
                <<"sorted list", LET Y == SortSeq(X, ULt) IN e.sorted1 = [i \in DOMAIN Y |-> Y[i].s]>> >>)

\* op "same": e.outs, what the same text gave at several moments, in several threads, with several parsers
SameV(e) ==
  LET u == UParse(e.in)
      x == IF Opening(e.in, 1) = 0 THEN AnyDeco ELSE TLCEval(DParse(e.in))      \* a decorated unit
      free == IF Opening(e.in, 1) = 0 THEN u.k = "U" ELSE x.any \/ (x.ok /\ Mixed(x))
      want == IF Opening(e.in, 1) = 0 THEN (IF u.k = "X" THEN "refused" ELSE u.s) ELSE IF x.ok THEN DecoText(x) ELSE "refused"
  IN
  Failing(<< <<"reading a text depends only on the text", \A i \in DOMAIN e.outs : e.outs[i] = e.outs[1]>>,
             <<"what is read", free \/ (\A i \in DOMAIN e.outs : e.outs[i] = want)>>,
             <<"no other exception than CannotParse", \A i \in DOMAIN e.outs : Len(e.outs[i]) < 7 \/ SubSeq(e.outs[i], 1, 7) # "raised ">> >>)

\* op "known": a text was read with the dictionary that has the roots e.roots and nothing else
KnownV(e) ==
  LET u == UParse(e.in)
      tk == ULex(e.in, 1)
      D == TLCEval(UNION {{e.roots[i]} \cup {z.s : z \in Range(SSeq(Parse(e.roots[i])))} : i \in DOMAIN e.roots})
      known == \A i \in DOMAIN tk : tk[i][1] = "m" => Parse(tk[i][2]).s \in D
  IN IF u.k = "U" THEN {}
     ELSE IF u.k = "X" THEN Failing(<< <<"a text that is not a unit is refused", e.out = "refused">> >>)
     ELSE IF known THEN Failing(<< <<"a unit made of known morphemes is read", e.out = u.s>> >>)
     ELSE Failing(<< <<"a morpheme that is not in the dictionary is refused", e.out = "refused">> >>)

UslVerdict(e) ==
  CASE e.op = "read" -> ReadV(e)
    [] e.op = "word" -> WordV(e)
    [] e.op = "made" -> MadeV(e)
    [] e.op = "simplify" -> SimplifyV(e)
    [] e.op = "eq" -> EqV(e)
    [] e.op = "ss" -> SSV(e)
    [] e.op = "in" -> InV(e)
    [] e.op = "check" -> CheckV(e)
    [] e.op = "lt" -> LtV(e)
    [] e.op = "same" -> SameV(e)
    [] e.op = "known" -> KnownV(e)
=============================================================================
