----------------------------- MODULE IEMLTable2D -----------------------------
(***************************************************************************)
(* The tables of a unit in two dimensions: the variations of one component *)
(* of the unit in columns, those of another one (or of all the groups that *)
(* are not in the columns) in rows.                                        *)
(*                                                                         *)
(* A choice is [h, I, y]: in the polymorpheme at the path h, the groups of *)
(* I (0..2) are replaced by the constants of y; or, if I is empty, the     *)
(* component at h is replaced by y. A row (a column) is a set of choices.  *)
(***************************************************************************)
EXTENDS IEMLDeco

IsGroupPath(q) == q.g # -2
HeadOfPath(q) == [q EXCEPT !.g = TopPath.g, !.n = TopPath.n]

PMAfter(pm, h, S) ==
  LET all == {z \in S : z.h = h /\ z.I = {}}
      here == {z \in S : z.h = h}
      gone == UNION {z.I : z \in here}
      left == SelectSeq([i \in DOMAIN pm.g |-> [m |-> pm.g[i].m, n |-> pm.g[i].n, i |-> i - 1]], LAMBDA g : g.i \notin gone)
  IN IF all # {} THEN (CHOOSE z \in all : TRUE).y
     ELSE MkPM(pm.c \o FlattenSeq(LET q == SetToSeq(here) IN [i \in DOMAIN q |-> q[i].y.c]), [i \in DOMAIN left |-> [m |-> left[i].m, n |-> left[i].n]])

LexAfter(x, h, S) ==
  LET all == {z \in S : z.h = h /\ z.I = {}} IN
  IF all # {} THEN (CHOOSE z \in all : TRUE).y
  ELSE MkLex(PMAfter(x.f, [h EXCEPT !.p = "flexion"], S), PMAfter(x.c, [h EXCEPT !.p = "content"], S))

RolePathOf(u, i) == [TopPath EXCEPT !.r = u.e[i].a, !.f = (u.e[i].a = u.r)]

\* the unit after the choices S
After(u, S) ==
  TLCEval(CASE u.k = "P" -> PMAfter(u, TopPath, S)
    [] u.k = "L" -> LexAfter(u, TopPath, S)
    [] u.k = "W" -> MkWord([i \in DOMAIN u.e |-> [a |-> u.e[i].a, x |-> LexAfter(u.e[i].x, RolePathOf(u, i), S)]], u.r))

\* the component (a record) at the path of a role, a lexeme or a polymorpheme
Component(u, q) ==
  LET x == IF q.r = <<>> THEN u ELSE u.e[CHOOSE i \in DOMAIN u.e : u.e[i].a = q.r].x
  IN CASE q.p = "flexion" -> x.f [] q.p = "content" -> x.c [] OTHER -> x

\* the choices for the component at the path q of the unit
ChoicesAt(u, q) ==
  IF q.g = -1 THEN {[h |-> HeadOfPath(q), I |-> {-1}, y |-> EmptyPM]}
  ELSE IF q.g >= 0 THEN LET h == HeadOfPath(q)
                            g == Component(u, h).g[q.g + 1]
                        IN {[h |-> h, I |-> {q.g}, y |-> y] : y \in PMSS(MkPM(<<>>, <<g>>))}
  ELSE {[h |-> q, I |-> {}, y |-> y] : y \in USS(Component(u, q))}

\* the paths of the polymorphemes of a unit, in a sequence
LexHeads(h) == <<[h EXCEPT !.p = "content"], [h EXCEPT !.p = "flexion"]>>
PMHeads(u) == CASE u.k = "P" -> <<TopPath>>
                [] u.k = "L" -> LexHeads(TopPath)
                [] u.k = "W" -> FlattenSeq([i \in DOMAIN u.e |-> LexHeads(RolePathOf(u, i))])

\* TopPath is in no component, and is the path of a polymorpheme alone
Inside(h, q) == h = q \/ (h # TopPath /\ HasPrefix(h, q))

\* the groups that are not in the component at the path C
FreeGroups(u, h, C) == IF Inside(h, C) THEN {}
                       ELSE (0..(Len(Component(u, h).g) - 1)) \ (IF C.g >= 0 /\ HeadOfPath(C) = h THEN {C.g} ELSE {})

RECURSIVE FreeRows(_, _, _, _)
FreeRows(u, C, hs, acc) ==
  IF hs = <<>> THEN acc
  ELSE LET I == FreeGroups(u, hs[1], C)
           pm == Component(u, hs[1])
           q == SetToSeq(I)
           part == MkPM(<<>>, [i \in DOMAIN q |-> pm.g[q[i] + 1]])
       IN FreeRows(u, C, Tail(hs), IF I = {} THEN acc
                                   ELSE TLCEval({a \cup {[h |-> hs[1], I |-> I, y |-> y]} : a \in acc, y \in PMSS(part)}))

ColChoices(u, C) == TLCEval({{z} : z \in ChoicesAt(u, C)})
\* R = <<>> or <<path>>
RowChoices(u, R, C) == TLCEval(IF R = <<>> THEN FreeRows(u, C, PMHeads(u), {{}}) ELSE {{z} : z \in ChoicesAt(u, R[1])})

\* the paths of components, that a table can have
TablePath(q) == q # TopPath /\ q.m = ""
Disjoint(p, q) == ~HasPrefix(p, q) /\ ~HasPrefix(q, p)

SortedUnits(S) == SortSeq(SetToSeq(S), LAMBDA a, b : ULt(a.u, b.u))
\* sequences of [u: the unit, S: the choices] in increasing order
TableRows(u, R, C) == TLCEval(SortedUnits({[u |-> After(u, S), S |-> S] : S \in RowChoices(u, R, C)}))
TableCols(u, C) == TLCEval(SortedUnits({[u |-> After(u, S), S |-> S] : S \in ColChoices(u, C)}))

-----------------------------------------------------------------------------
(* the partitions of the variations of a unit: the sets of components with *)
(* variations, of which none is in another one                             *)

VaryingPaths(u) == TLCEval({z[1] : z \in {y \in UPaths(u, FALSE) : y[1].m = "" /\ Cardinality(IF y[1] = TopPath THEN USS(u)
                             ELSE IF y[1].g = -1 THEN {0}
                             ELSE IF y[1].g >= 0 THEN PMSS(MkPM(<<>>, <<Component(u, HeadOfPath(y[1])).g[y[1].g + 1]>>))
                             ELSE USS(Component(u, y[1]))) > 1}})
\* the smallest of them
VaryingLeaves(V) == {p \in V : \A q \in V : q # p => ~HasPrefix(q, p)}

RECURSIVE Antichains(_)
Antichains(V) == IF V = {} THEN {{}}
                 ELSE LET p == CHOOSE q \in V : TRUE
                      IN TLCEval(Antichains(V \ {p}) \cup {{p} \cup S : S \in Antichains({q \in V \ {p} : Disjoint(p, q)})})
=============================================================================
