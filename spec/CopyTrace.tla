------------------------------ MODULE CopyTrace ------------------------------
(* judges the answers of the copies of morphemes, units, decorated units, paths and collections of them (C27) *)
EXTENDS IEMLDeco, DictTrace

HasEmptyGroup(u) == CASE u.k = "S" -> FALSE
                      [] u.k = "P" -> \E i \in DOMAIN u.g : u.g[i].m = <<>>
                      [] u.k = "L" -> \E i \in DOMAIN (u.f.g \o u.c.g) : (u.f.g \o u.c.g)[i].m = <<>>
                      [] u.k = "W" -> \E j \in DOMAIN u.e : LET g == u.e[j].x.f.g \o u.e[j].x.c.g IN \E i \in DOMAIN g : g[i].m = <<>>
ClassOf(u) == CASE u.k = "S" -> ToString(u.m.g) [] u.k = "P" -> ToString(PMClass(u)) [] u.k = "L" -> ToString(PMClass(u.c)) [] u.k = "W" -> WordClass(u)
Order(a, b) == IF a.s = b.s THEN "equal" ELSE IF ULt(a, b) THEN "less" ELSE "greater"
Bool(b) == IF b THEN "yes" ELSE "no"

\* an answer is [q, s, l]: the question, a text, a list of texts
UnitOk(u, nb, z) ==
  CASE z.q = "text" -> z.s = u.s
    [] z.q = "ss" -> ~URegular(u) \/ HasEmptyGroup(u) \/ (LET S == USSText(u) IN Range(z.l) = S /\ Len(z.l) = Cardinality(S) /\ z.s = ToString(Cardinality(S)))
    [] z.q = "class" -> z.s = ClassOf(u)
    [] z.q = "empty" -> z.s = Bool(UIsEmpty(u))
    [] z.q = "valid" -> u.k = "S" \/ z.s = Bool(UCheck(u))
    [] z.q = "morphs" -> z.l = Morphemes(u)
    [] z.q = "paths" -> ~HasPaths(u) \/ Range(z.l) = {PathText(y[1]) \o " = " \o y[2] : y \in UPaths(u, FALSE)}
    [] z.q = "order" -> z.s = Order(u, nb)
    [] OTHER -> z.s = "ok"         \* copy, same

DecoOk(x, z) ==
  CASE z.q = "text" -> Mixed(x) \/ z.s = DecoText(x)
    [] z.q = "ss" -> Mixed(x) \/ ~UCheck(x.u) \/ (LET S == DecoSS(x) IN Range(z.l) = S /\ Len(z.l) = Cardinality(S))
    [] z.q = "class" -> z.s = ClassOf(x.u)
    [] z.q = "empty" -> z.s = Bool(UIsEmpty(x.u))
    [] z.q = "valid" -> z.s = Bool(UCheck(x.u))
    [] z.q = "morphs" -> z.l = Morphemes(x.u)
    [] z.q = "paths" -> Range(z.l) = {PathText(y[1]) \o " = " \o y[2] : y \in x.d}
    [] z.q = "order" -> TRUE
    [] OTHER -> z.s = "ok"

PathOk(p, z) ==
  CASE z.q = "text" -> z.s = PathText(p)
    [] z.q = "class" -> z.s = PathText(AsConstant(p))
    [] z.q = "same" \/ z.q = "copy" -> z.s = "ok"
    [] OTHER -> TRUE

Clause(q) == CASE q = "same" -> "a copy is equal to what is read from the text, with the same hash"
               [] q = "copy" -> "an object can be copied"
               [] OTHER -> "a copy answers as the text: " \o q

\* op "copy": e.k the kind of the object, e.in its text, e.ans the answers of the object and of its copies
CopyV(e) ==
  CASE e.k = "unit" ->
         (LET u == TLCEval(UParse(e.in))
              nb == TLCEval(UParse(e.nb))
          IN IF ~IsUsl(u) \/ ~IsUsl(nb) THEN {} ELSE {Clause(z.q) : z \in {y \in Range(e.ans) : ~UnitOk(u, nb, y)}})
    [] e.k = "deco" ->
         (LET x == TLCEval(DParse(e.in)) IN IF x.any \/ ~x.ok THEN {} ELSE {Clause(z.q) : z \in {y \in Range(e.ans) : ~DecoOk(x, y)}})
    [] e.k = "path" ->
         (LET p == TLCEval(PParse(e.in)) IN IF p.u \/ ~p.ok THEN {} ELSE {Clause(z.q) : z \in {y \in Range(e.ans) : ~PathOk(p, y)}})

\* op "box": a list, a set and a map of the units e.ins were copied together
BoxV(e) ==
  LET U == [i \in DOMAIN e.ins |-> UParse(e.ins[i])] IN
  IF \E i \in DOMAIN U : ~IsUsl(U[i]) THEN {}
  ELSE Failing(<< <<"a collection can be copied", e.copy = "ok">>,
                  <<"the list of the copies", e.list = [i \in DOMAIN U |-> U[i].s]>>,
                  <<"the set of the copies", Range(e.set) = {U[i].s : i \in DOMAIN U} /\ Len(e.set) = Cardinality({U[i].s : i \in DOMAIN U})>>,
                  <<"what is read from the texts is found in the copies", e.found>>,
                  <<"what was one object is one object", e.shared>> >>)

CopyVerdict(e) == CASE e.op = "copy" -> CopyV(e) [] e.op = "box" -> BoxV(e) [] OTHER -> DictVerdict(e)
=============================================================================
