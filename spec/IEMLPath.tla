------------------------------ MODULE IEMLPath ------------------------------
(***************************************************************************)
(* The paths inside of a unit: their writing, what they lead to, the paths *)
(* of a unit, and the unit made of the morphemes at given paths.           *)
(*                                                                         *)
(* A path is a record:                                                     *)
(*  r: the role (<<>>: none), f: the role is written with the focus,       *)
(*  p: "content", "flexion" or "", g: -1 constants, 0..2 groups, -2: none, *)
(*  n: the multiplicity of the group (0: none), m: the morpheme or ""      *)
(* The path ">" has none of them. ok is FALSE for a text that is refused,  *)
(* u is TRUE if it is not specified.                                       *)
(***************************************************************************)
EXTENDS IEMLUsl

RoleNames == <<<<"is an analogy of the precedent cause to effect relationship (a fortiori, a contrario, etc.)", "E:.-we.-k.u.-'">>,
  <<"is an analogy of the precedent effect to cause relationship", "E:.-wu.-k.u.-'">>,
  <<"is the quantitative average of the precedent", "E:.-a.-k.u.-'">>,
  <<"is the qualitative average of the precedent", "E:.-o.-k.u.-'">>,
  <<"is the effect of the precedent (therefore)", "E:.-wo.-k.u.-'">>,
  <<"has the opposite effect of the precedent", "E:.-d.u.-k.u.-'">>,
  <<"increases the effect of the previous one", "E:.-l.u.-k.u.-'">>,
  <<"is fortunately opposed to the precedent", "E:.-n.u.-k.u.-'">>,
  <<"is the cause of the precedent (because)", "E:.-wa.-k.u.-'">>,
  <<"reduces the effect of the previous one", "E:.-f.u.-k.u.-'">>,
  <<"has nothing to do with the precedent", "E:.-b.u.-k.u.-'">>,
  <<"unfortunately opposes the precedent", "E:.-k.u.-k.u.-'">>,
  <<"balances the precedent (neutral)", "E:.-m.u.-k.u.-'">>,
  <<"is the minimum of the precedent", "E:.-u.-k.u.-'">>,
  <<"is the maximum of the precedent", "E:.-i.-k.u.-'">>,
  <<"is distinct from the precedent", "E:.-t.a.-k.u.-'">>,
  <<"is the worst of the precedent", "E:.-y.-k.u.-'">>,
  <<"is the same as the precedent", "E:.-s.a.-k.u.-'">>,
  <<"is better than the precedent", "E:.-n.a.-k.u.-'">>,
  <<"is the best of the precedent", "E:.-e.-k.u.-'">>,
  <<"is similar to the precedent", "E:.-b.a.-k.u.-'">>,
  <<"is worse than the precedent", "E:.-k.a.-k.u.-'">>,
  <<"is as good as the precedent", "E:.-m.a.-k.u.-'">>,
  <<"is as much as the precedent", "E:.-f.a.-k.u.-'">>,
  <<"is less than the precedent", "E:.-d.a.-k.u.-'">>,
  <<"is more than the precedent", "E:.-l.a.-k.u.-'">>,
  <<"contradicts the precedent", "E:.-t.u.-k.u.-'">>,
  <<"explains the precedent", "E:.-s.u.-k.u.-'">>,
  <<"or (inclusive)", "E:B:.-k.u.-'">>,
  <<"or (exclusive)", "E:T:.-k.u.-'">>,
  <<"interactant", "E:.d.-">>,
  <<"independant", "E:U:.">>,
  <<"process_1", "E:S:.">>,
  <<"process_2", "E:T:.">>,
  <<"process_3", "E:B:.">>,
  <<"initiator", "E:.n.-">>,
  <<"recipient", "E:.k.-">>,
  <<"intention", "E:.m.-">>,
  <<"dependant", "E:A:.">>,
  <<"location", "E:.l.-">>,
  <<"process", "E:B:.">>,
  <<"manner", "E:.f.-">>,
  <<"cause", "E:.s.-">>,
  <<"time", "E:.t.-">>,
  <<"and", "E:S:.-k.u.-'">>,
  <<"*10", "p.-A:.-'d.o.-l.o.-',">>,
  <<"*11", "x.-U:.-'d.o.-l.o.-',">>,
  <<"*12", "x.-A:.-'d.o.-l.o.-',">>,
  <<"*1", "j.-U:.-'d.o.-l.o.-',">>,
  <<"*2", "j.-A:.-'d.o.-l.o.-',">>,
  <<"*3", "g.-U:.-'d.o.-l.o.-',">>,
  <<"*4", "g.-A:.-'d.o.-l.o.-',">>,
  <<"*5", "h.-U:.-'d.o.-l.o.-',">>,
  <<"*6", "h.-A:.-'d.o.-l.o.-',">>,
  <<"*7", "c.-U:.-'d.o.-l.o.-',">>,
  <<"*8", "c.-A:.-'d.o.-l.o.-',">>,
  <<"*9", "p.-U:.-'d.o.-l.o.-',">>>>
FlexionRoots == {"E:M:.-d.u.-'",
  "E:.-n.E:U:.+F:.-'",
  "E:O:O:.",
  "E:M:O:.",
  "E:.+E:U:S:+T:.-M:M:.o.-'",
  "E:.b.O:M:.-",
  "E:.b.O:O:.-",
  "E:S:.j.-'M:O:.-O:.-',",
  "E:.-',b.-S:.U:.-'y.-'O:.-',_",
  "E:.O:O:.-",
  "E:I:.-t.u.-'",
  "E:F:.-t.o.-'",
  "E:.-'O:O:.-M:.-'t.o.-',",
  "E:.-O:O:.-t.o.-'",
  "E:.-F:.M:M:.-l.-'",
  "E:.O:O:.O:.-t.o.-'",
  "E:M:.-O:.-t.o.-'",
  "E:M:.d.+M:O:.-",
  "E:F:M:.",
  "E:.O:.M:O:.-"}

ASSUME TLCSet(31, [x \in FlexionRoots |-> {z.s : z \in Range(SSeq(Parse(x)))}])      \* computed once
FlexionParadigm(x) == TLCGet(31)[x]

TopPath == [r |-> <<>>, f |-> FALSE, p |-> "", g |-> -2, n |-> -1, m |-> "", ok |-> TRUE, u |-> FALSE]
NoPath == [TopPath EXCEPT !.ok = FALSE]
AnyPath == [TopPath EXCEPT !.u = TRUE]

PMPart(q) == (IF q.g = -1 THEN ">constant"
              ELSE IF q.g >= 0 THEN ">group_" \o ToString(q.g) \o (IF q.n = -1 THEN "" ELSE " " \o ToString(q.n))
              ELSE "")
             \o (IF q.m = "" THEN "" ELSE ">" \o q.m)
PathText(q) == IF q = TopPath THEN ">"
               ELSE (IF q.r = <<>> THEN "" ELSE ">role>" \o (IF q.f THEN "! " ELSE "") \o JoinStr(q.r, " "))
                    \o (IF q.p = "" THEN "" ELSE ">" \o q.p) \o PMPart(q)

-----------------------------------------------------------------------------
(* reading *)

Keywords == <<"flexion", "content", "constant", "role", "group_">>
At(txt, i, w) == i + Len(w) - 1 <= Len(txt) /\ SubSeq(txt, i, i + Len(w) - 1) = w
FirstOf(txt, i, ws) == LET J == {j \in DOMAIN ws : At(txt, i, ws[j])} IN IF J = {} THEN 0 ELSE CHOOSE j \in J : \A k \in J : j <= k

\* the marks after a letter are in this order, at most once each; otherwise there is an illegal character, which is not specified
PMarks == <<":", ".", "-", "'", ",", "_", ";", "+">>
PMarkRank(c) == IF c \in Range(PMarks) THEN CHOOSE k \in DOMAIN PMarks : PMarks[k] = c ELSE 0
Regular(run) == \A i \in 1..(Len(run) - 1) : LET a == PMarkRank(SubSeq(run, i, i))
                                                  b == PMarkRank(SubSeq(run, i + 1, i + 1)) IN b = 0 \/ a < b

\* tokens: ">", "!", "d" a digit, "f" flexion or content, "c" constant, "g" a group, "r" role, "n" a name of a role, "m" a morpheme, "?"
RECURSIVE PLex(_, _)
PLex(txt, i) ==
  IF i > Len(txt) THEN <<>>
  ELSE LET c == SubSeq(txt, i, i)
           kw == FirstOf(txt, i, Keywords)
           nm == FirstOf(txt, i, [j \in DOMAIN RoleNames |-> RoleNames[j][1]])
       IN IF c \in Blank THEN PLex(txt, i + 1)
          ELSE IF c \in {">", "!"} THEN <<<<c, c>>>> \o PLex(txt, i + 1)
          ELSE IF c \in Digits THEN <<<<"d", c>>>> \o PLex(txt, i + 1)
          ELSE IF nm # 0 THEN <<<<"n", RoleNames[nm][2]>>>> \o PLex(txt, i + Len(RoleNames[nm][1]))
          ELSE IF kw \in {1, 2} THEN <<<<"f", Keywords[kw]>>>> \o PLex(txt, i + Len(Keywords[kw]))
          ELSE IF kw = 3 THEN <<<<"c", "">>>> \o PLex(txt, i + 8)
          ELSE IF kw = 4 THEN <<<<"r", "">>>> \o PLex(txt, i + 4)
          ELSE IF kw = 5 THEN (IF SubSeq(txt, i + 6, i + 6) \in Digits /\ i + 6 <= Len(txt)
                               THEN <<<<"g", SubSeq(txt, i + 6, i + 6)>>>> \o PLex(txt, i + 7) ELSE <<<<"?", "">>>>)
          ELSE IF c \in Letters THEN LET j == EndOf(txt, i, RunChars)
                                         run == SubSeq(txt, i, j - 1)
                                     IN <<<<(IF Len(run) < 2 \/ ~Regular(run) THEN "?" ELSE "m"), run>>>> \o PLex(txt, j)
          ELSE <<<<"?", c>>>>

\* the end of the path at token i: the content of a polymorpheme
PPM(tk, i, q) ==
  LET h == IF KindAt(tk, i) = "c" THEN -1 ELSE IF KindAt(tk, i) = "g" THEN DigitValue(tk[i][2]) ELSE -2
      d == KindAt(tk, i + 1) = "d"
      j == IF d THEN i + 2 ELSE i + 1
      n == IF h = -1 THEN -1 ELSE IF d THEN DigitValue(tk[i + 1][2]) ELSE 1
      e == [q EXCEPT !.g = h, !.n = n]
  IN IF h = -2 \/ h > 2 THEN NoPath
     ELSE IF j = Len(tk) + 1 THEN e
     ELSE IF KindAt(tk, j) = ">" /\ KindAt(tk, j + 1) = "m" /\ j + 1 = Len(tk)
          THEN LET z == Parse(tk[j + 1][2]) IN IF IsErr(z) THEN NoPath ELSE [e EXCEPT !.m = z.s]
     ELSE NoPath

PFlex(tk, i, q) == IF KindAt(tk, i) = "m" /\ i = Len(tk)
                   THEN LET z == Parse(tk[i][2]) IN IF IsErr(z) THEN NoPath ELSE [q EXCEPT !.m = z.s]
                   ELSE NoPath

PLexeme(tk, i, q) ==
  IF KindAt(tk, i) # "f" THEN NoPath
  ELSE LET e == [q EXCEPT !.p = tk[i][2]] IN
       IF i = Len(tk) THEN e
       ELSE IF KindAt(tk, i + 1) # ">" THEN NoPath
       ELSE IF e.p = "content" THEN PPM(tk, i + 2, e) ELSE PFlex(tk, i + 2, e)

RECURSIVE PRoles(_, _)
PRoles(tk, i) == IF KindAt(tk, i) \notin {"m", "n"} THEN Got(i, <<>>)
                 ELSE LET q == PRoles(tk, i + 1) IN Got(q.i, <<Parse(tk[i][2]).s>> \o q.v)

PRole(tk, i) ==
  LET f == KindAt(tk, i + 2) = "!"
      a == PRoles(tk, IF f THEN i + 3 ELSE i + 2)
      e == [TopPath EXCEPT !.r = a.v, !.f = f]
  IN IF KindAt(tk, i + 1) # ">" \/ a.v = <<>> \/ (\E j \in DOMAIN a.v : a.v[j] \notin RoleSet) THEN NoPath
     ELSE IF a.i = Len(tk) + 1 THEN e
     ELSE IF KindAt(tk, a.i) = ">" THEN PLexeme(tk, a.i + 1, e)
     ELSE NoPath

PParse(txt) ==
  LET tk == PLex(txt, 1) IN
  IF \E i \in DOMAIN tk : tk[i][1] = "?" THEN AnyPath
  ELSE IF KindAt(tk, 1) # ">" THEN NoPath
  ELSE IF Len(tk) = 1 THEN TopPath
  ELSE CASE tk[2][1] = "r" -> PRole(tk, 2)
         [] tk[2][1] = "f" -> PLexeme(tk, 2, TopPath)
         [] tk[2][1] = "m" -> PFlex(tk, 2, TopPath)
         [] tk[2][1] \in {"c", "g"} -> PPM(tk, 2, TopPath)
         [] OTHER -> NoPath

-----------------------------------------------------------------------------
(* what a path leads to: the writing of the node, or "refused", or "?" if it is not specified *)

DPM(q, pm) ==
  IF q.g = -2 /\ q.m = "" THEN pm.s
  ELSE IF q.g = -2 THEN (IF (\E x \in MorphSet(pm) : x.s = q.m) \/ (pm.c = <<>> /\ q.m = "E:") THEN q.m
                         ELSE IF IsEmpty(Parse(q.m)) THEN "?" ELSE "refused")
  ELSE IF q.g >= Len(pm.g) THEN "refused"
  ELSE LET part == IF q.g = -1 THEN pm.c ELSE pm.g[q.g + 1].m IN
       IF q.m = "" THEN (IF q.g = -1 THEN MkPM(pm.c, <<>>).s ELSE MkPM(<<>>, <<pm.g[q.g + 1]>>).s)
       ELSE IF \E i \in DOMAIN part : part[i].s = q.m THEN q.m
       ELSE IF IsEmpty(Parse(q.m)) THEN (IF q.g = -1 /\ pm.c = <<>> /\ q.m = "E:" THEN q.m ELSE "?")
       ELSE "refused"

DLex(q, x) == IF q.p = "" THEN x.s ELSE DPM(q, IF q.p = "content" THEN x.c ELSE x.f)

\* the valence of a process is the one of the word
RoleOf(r, w) == IF w.x = "process" /\ r # <<>> /\ r[1] \in ValenceSet
                THEN <<(CHOOSE v \in ValenceSet : \E i \in DOMAIN w.e : w.e[i].a = <<v>>)>> \o Tail(r) ELSE r

Deref(q, u) ==
  IF q = TopPath THEN u.s
  ELSE IF q.r # <<>> THEN
       (IF u.k # "W" THEN "refused"
        ELSE LET a == RoleOf(q.r, u)
                 I == {i \in DOMAIN u.e : u.e[i].a = a}
             IN IF I = {} THEN "refused" ELSE DLex(q, u.e[CHOOSE i \in I : TRUE].x))
  ELSE IF q.p # "" THEN (IF u.k # "L" THEN "refused" ELSE DLex(q, u))
  ELSE IF u.k # "P" THEN "refused" ELSE DPM(q, u)

-----------------------------------------------------------------------------
(* the paths of a unit: set of <<path, node>>; only those of the morphemes if ss *)

ConstTexts(pm) == IF pm.c = <<>> THEN {"E:"} ELSE {pm.c[i].s : i \in DOMAIN pm.c}

PMPaths(q, pm, ss) ==
  LET atm(g, n, t) == [q EXCEPT !.g = g, !.n = n, !.m = t] IN
  (IF ss THEN {} ELSE {<<atm(-1, -1, ""), MkPM(pm.c, <<>>).s>>} \cup {<<atm(i - 1, pm.g[i].n, ""), MkPM(<<>>, <<pm.g[i]>>).s>> : i \in DOMAIN pm.g})
  \cup {<<atm(-1, -1, t), t>> : t \in ConstTexts(pm)}
  \cup UNION {{<<atm(i - 1, pm.g[i].n, x.s), x.s>> : x \in Range(pm.g[i].m)} : i \in DOMAIN pm.g}

FlexPaths(q, pm) == {<<[q EXCEPT !.m = t], t>> : t \in ConstTexts(pm) \cup UNION {{x.s : x \in Range(pm.g[i].m)} : i \in DOMAIN pm.g}}

LexPaths(q, x, ss) ==
  LET f == [q EXCEPT !.p = "flexion"]
      c == [q EXCEPT !.p = "content"]
  IN (IF ss THEN {} ELSE {<<f, x.f.s>>, <<c, x.c.s>>}) \cup FlexPaths(f, x.f) \cup PMPaths(c, x.c, ss)

UPaths(u, ss) ==
  CASE u.k = "P" -> PMPaths(TopPath, u, ss)
    [] u.k = "L" -> LexPaths(TopPath, u, ss)
    [] u.k = "W" -> (IF ss THEN {} ELSE {<<TopPath, u.s>>})
                    \cup UNION {LET q == [TopPath EXCEPT !.r = u.e[i].a, !.f = (u.e[i].a = u.r)]
                                IN (IF ss THEN {} ELSE {<<q, u.e[i].x.s>>}) \cup LexPaths(q, u.e[i].x, ss) : i \in DOMAIN u.e}

\* the paths have room for three groups, with a multiplicity of one digit
PMWithPaths(pm) == Len(pm.g) <= 3 /\ \A i \in DOMAIN pm.g : pm.g[i].n <= 9
HasPaths(u) == CASE u.k = "S" -> FALSE
                 [] u.k = "P" -> PMWithPaths(u)
                 [] u.k = "L" -> PMWithPaths(u.f) /\ PMWithPaths(u.c)
                 [] u.k = "W" -> \A i \in DOMAIN u.e : PMWithPaths(u.e[i].x.f) /\ PMWithPaths(u.e[i].x.c)

HasPrefix(q, p) ==
  IF p = TopPath \/ q = TopPath THEN p = q
  ELSE /\ q.r = p.r /\ q.f = p.f
       /\ IF p.r # <<>> /\ p.p = "" THEN TRUE
          ELSE /\ q.p = p.p
               /\ IF p.p # "" /\ p.g = -2 /\ p.m = "" THEN TRUE
                  ELSE q.g = p.g /\ q.n = p.n /\ (p.m = q.m \/ (p.m = "" /\ p.g # -2))

\* what follows a prefix, "" if nothing does or if it is not a prefix
AfterPrefix(q, p) ==
  IF ~HasPrefix(q, p) \/ p = TopPath THEN ""
  ELSE LET a == IF p.r # <<>> THEN [q EXCEPT !.r = <<>>, !.f = FALSE] ELSE q
           b == IF p.p # "" THEN [a EXCEPT !.p = ""] ELSE a
           c == IF p.g # -2 \/ p.m # "" THEN TopPath ELSE b
       IN IF c = TopPath THEN "" ELSE PathText(c)

AsConstant(q) == IF q.g >= 0 THEN [q EXCEPT !.g = -1, !.n = -1] ELSE q
IsConstantPath(q) == q # TopPath /\ q.g < 0
\* the flexions that are not in a lexeme can not be without morpheme
WithoutMorpheme(q) == IF q.m # "" /\ q.p = "" /\ q.g = -2 THEN "refused" ELSE PathText([q EXCEPT !.m = ""])

-----------------------------------------------------------------------------
(* the unit that has the given morphemes at the given paths. S: set of <<path, text>> *)

MorphsOf(T) == LET q == SetToSeq(T) IN [i \in DOMAIN q |-> Parse(q[i])]

ComposePM(S) ==
  LET of(g) == {z[2] : z \in {y \in S : y[1].g = g}}
      mult(g) == LET N == {z[1].n : z \in {y \in S : y[1].g = g}} \ {-1} IN IF N = {} THEN 1 ELSE CHOOSE n \in N : TRUE
      gs == SelectSeq(<<0, 1, 2>>, LAMBDA g : of(g) # {})
  IN MkPM(MorphsOf(of(-1)), [i \in DOMAIN gs |-> [m |-> MorphsOf(of(gs[i])), n |-> mult(gs[i])]])

\* the morphemes of one paradigm of flexion are a group, those that are alone or in no paradigm are constants
ComposeFlexion(T) ==
  LET part(x) == T \cap FlexionParadigm(x)
      many == {x \in FlexionRoots : Cardinality(part(x)) > 1}
      gs == SetToSeq(many)
  IN MkPM(MorphsOf(T \ UNION {part(x) : x \in many}), [i \in DOMAIN gs |-> [m |-> MorphsOf(part(gs[i])), n |-> 1]])

ComposeLex(S) == MkLex(ComposeFlexion({z[2] : z \in {y \in S : y[1].p = "flexion"}}), ComposePM({y \in S : y[1].p = "content"}))

Compose(S) ==
  LET q == (CHOOSE z \in S : TRUE)[1]
      kind(p) == IF p.r # <<>> THEN "W" ELSE IF p.p # "" THEN "L" ELSE IF p.g # -2 THEN "P" ELSE "F"
      K == {kind(z[1]) : z \in S}
      PMs == {[z[1] EXCEPT !.m = "", !.n = 0] : z \in {y \in S : y[1].g >= 0}}
      mults(p) == {z[1].n : z \in {y \in S : [y[1] EXCEPT !.m = "", !.n = 0] = p}}
  IN IF Cardinality(K) # 1 \/ (\E p \in PMs : Cardinality(mults(p)) > 1) THEN Refused
     ELSE CASE K = {"P"} -> ComposePM(S)
            [] K = {"F"} -> ComposeFlexion({z[2] : z \in S})
            [] K = {"L"} -> ComposeLex(S)
            [] K = {"W"} -> LET R == {z[1].r : z \in S}
                                foc == {z[1].r : z \in {y \in S : y[1].f}}
                                rs == SetToSeq(R)
                            \* one role has the focus, at all its paths
                            IN IF Cardinality(foc) # 1 \/ (\E z \in S : z[1].r \in foc /\ ~z[1].f) THEN Refused
                               ELSE MkWord([i \in DOMAIN rs |-> [a |-> rs[i], x |-> ComposeLex({y \in S : y[1].r = rs[i]})]], CHOOSE a \in foc : TRUE)

\* a unit is made of the morphemes at its paths, if its flexions are those of ComposeFlexion
PMFlexion(pm) == ComposeFlexion({x.s : x \in MorphSet(pm)}).s = pm.s
\* a group that is empty has no path to a morpheme
NoEmptyGroup(pm) == \A i \in DOMAIN pm.g : pm.g[i].m # <<>>
IsComposed(u) == /\ HasPaths(u)
                 /\ CASE u.k = "P" -> NoEmptyGroup(u)
                      [] u.k = "L" -> PMFlexion(u.f) /\ NoEmptyGroup(u.c)
                      [] u.k = "W" -> \A i \in DOMAIN u.e : PMFlexion(u.e[i].x.f) /\ NoEmptyGroup(u.e[i].x.c)
=============================================================================
