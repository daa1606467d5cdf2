----------------------------- MODULE DictTrace -----------------------------
(* judges the observations made on dictionaries (properties C08..C10) *)
EXTENDS IEMLDict, Walk

Rows(e) == {<<r[1], r[2], r[3]>> : r \in Range(e.rows)}

\* a field that is not recorded is not judged
Pairs(q) == {<<p[1], p[2]>> : p \in Range(q)}

\* what a table of the dictionary says of its cells
CoordsOk(D, c) ==
  LET x == Parse(c.s)
      T == Tab(x)
      k == D.kind[c.s]
      ss == SSeq(x)
      cells == T.cells[1]
  IN CASE k = "1D" -> /\ c.shape = <<Len(cells)>>
                      /\ c.at = StrS(ss)
                      /\ Len(c.index) = Len(ss)
                      /\ \A i \in DOMAIN ss : /\ Len(c.index[i]) = 1
                                              /\ c.index[i][1] + 1 \in DOMAIN cells
                                              /\ cells[c.index[i][1] + 1][1][1].s = ss[i].s
       [] k = "2D" -> /\ c.shape = <<Len(cells), Len(cells[1])>>
                      /\ c.at = StrS(ss)
                      /\ Len(c.index) = Len(ss)
                      /\ \A i \in DOMAIN ss : /\ Len(c.index[i]) = 2
                                              /\ c.index[i][1] + 1 \in DOMAIN cells
                                              /\ c.index[i][2] + 1 \in DOMAIN cells[1]
                                              /\ cells[c.index[i][1] + 1][c.index[i][2] + 1][1].s = ss[i].s
                      /\ c.rows = StrS(T.hd[1][1])
                      /\ c.cols = StrS(T.hd[1][2])
       [] k = "3D" -> /\ c.shape = Shape(cells)
                      /\ c.tabs = StrS(T.ts)
       [] OTHER    -> c.tabs = StrS(T.ts)

DictVerdict(e) ==
  LET D == Dict(Range(e.par), Rows(e)) IN
  IF D.err THEN Failing(<< <<"overlapping roots are refused", ~e.ok>> >>)
  ELSE IF ~e.ok THEN {"the dictionary is built"}
  ELSE
   LET texts == StrS(D.scripts)
       I == DOMAIN D.scripts
   IN Failing(
     IF e.op = "content" THEN
      << <<"content of the dictionary, in order", e.scripts = texts>>,
         <<"length", e.len = Len(texts)>>,
         <<"index", e.index = [i \in I |-> i - 1]>>,
         <<"roots", Range(e.roots) = D.roots /\ Len(e.roots) = Cardinality(D.roots)>>,
         <<"flags of the roots", e.flags = [i \in I |-> IF texts[i] \in D.roots THEN 1 ELSE 0]>>,
         <<"look up by text", e.lookup = texts>>,
         <<"membership", e.absent = [i \in DOMAIN e.ask |-> \E t \in Range(texts) : t = e.ask[i]]>> >>
     ELSE IF e.op = "tables" THEN
      << <<"same morphemes", e.scripts = texts>>,
         <<"ranks", e.scripts = texts => e.ranks = [i \in I |-> D.ranks[texts[i]]]>>,
         <<"parents", e.scripts = texts => e.parents = [i \in I |-> D.parent[texts[i]]]>>,
         <<"kind of the tables", e.scripts = texts => e.kinds = [i \in I |-> D.kind[texts[i]]]>>,
         <<"root of the tables", e.scripts = texts => e.rootof = [i \in I |-> D.rootof[texts[i]]]>>,
         <<"children of the tables", e.scripts = texts => \A i \in I :
              Range(e.children[i]) = {t \in Range(texts) : D.parent[t] = texts[i]}>>,
         <<"coordinates in the tables", e.scripts = texts => \A k \in DOMAIN e.coords : CoordsOk(D, e.coords[k])>> >>
     ELSE
      LET R == Relations(D) IN
      << <<"same morphemes", e.scripts = texts>> >>
      \o (IF e.scripts # texts THEN <<>> ELSE
           LET names == SetToSeq(DOMAIN R) IN
           [k \in DOMAIN names |-> <<"relation " \o names[k], Pairs(e.rel[names[k]]) = R[names[k]]>>]
           \o << <<"relations between two morphemes", \A q \in Range(e.between) :
                    Range(q[3]) = {n \in DOMAIN R : <<q[1], q[2]>> \in R[n]}>>,
                 <<"objects in order", e.sorted>>,
                 <<"relations of a morpheme", DOMAIN e.of = DOMAIN R /\ \A n \in DOMAIN R :
                    /\ Range(e.of[n]) = {p[2] : p \in {q \in R[n] : q[1] = e.one}}
                    /\ Len(e.of[n]) = Cardinality(Range(e.of[n]))>>,
                 <<"relations as rows", /\ e.columns = <<"attribute", "mode", "substance">>
                                       /\ DOMAIN e.frame = DOMAIN R
                                       /\ \A n \in DOMAIN R : /\ Pairs(e.frame[n]) = R[n]
                                                               /\ Len(e.frame[n]) = Cardinality(R[n])>>,
                 <<"matrix", Pairs(e.matrix) = UNION {R[n] : n \in DOMAIN R}>> >>))
=============================================================================
