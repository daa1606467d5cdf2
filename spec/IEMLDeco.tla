------------------------------ MODULE IEMLDeco ------------------------------
(***************************************************************************)
(* The decorated units: a unit and values at some of its paths.            *)
(* A decorated unit is [u, d, ok, any]: the unit, the function (as a set   *)
(* of <<path, value>>, the paths being those of the unit) of its values;   *)
(* ok is FALSE if the text is refused, any is TRUE if it is not specified. *)
(***************************************************************************)
EXTENDS IEMLPath

NoDeco == [u |-> Refused, d |-> {}, ok |-> FALSE, any |-> FALSE]
AnyDeco == [u |-> Refused, d |-> {}, ok |-> FALSE, any |-> TRUE]

\* the path of the unit that leads to the same component: the focus, the valence and the multiplicity are those of the unit
Normal(q, u) ==
  LET pm == CASE u.k = "P" -> u
              [] u.k = "L" -> u.c
              [] u.k = "W" -> (IF q.r = <<>> THEN EmptyPM ELSE u.e[CHOOSE i \in DOMAIN u.e : u.e[i].a = RoleOf(q.r, u)].x.c)
      a == IF q.g >= 0 THEN [q EXCEPT !.n = pm.g[q.g + 1].n] ELSE q
  IN IF q.r = <<>> THEN a ELSE [a EXCEPT !.r = RoleOf(q.r, u), !.f = (RoleOf(q.r, u) = u.r)]

\* h: sequence of <<path, value>>. The last value of a path is kept
Decorated(u, h) ==
  IF \E i \in DOMAIN h : Deref(h[i][1], u) = "refused" THEN NoDeco
  ELSE LET N == [i \in DOMAIN h |-> Normal(h[i][1], u)]
       IN [u |-> u, ok |-> TRUE, any |-> FALSE,
           d |-> {<<N[i], h[i][2]>> : i \in {j \in DOMAIN h : \A k \in DOMAIN h : k > j => N[k] # N[j]}}]

-----------------------------------------------------------------------------
(* writing *)

RECURSIVE Escape(_)
Escape(v) == IF v = "" THEN ""
             ELSE LET c == SubSeq(v, 1, 1) IN (IF c \in {"\"", "\\"} THEN "\\" \o c ELSE c) \o Escape(SubSeq(v, 2, Len(v)))

DecoText1(z) == "[" \o PathText(z[1]) \o " \"" \o Escape(z[2]) \o "\"]"

IndexIn(q, t) == LET I == {i \in DOMAIN q : q[i].s = t} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Flat(pm) == pm.c \o (IF pm.g = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, g : a \o g.m, <<>>, pm.g))

\* the role, then the flexion before the content in a word, the content before the flexion in a lexeme, the constants, the groups
Rank(q, u) ==
  LET i == IF q.r = <<>> THEN 0 ELSE CHOOSE j \in DOMAIN u.e : u.e[j].a = q.r
      x == IF u.k = "W" THEN (IF i = 0 THEN EmptyPM ELSE u.e[i].x) ELSE u
      b == IF q.p = "" THEN 0 ELSE IF (q.p = "flexion") = (u.k = "W") THEN 1 ELSE 2
      pm == IF q.p = "flexion" THEN x.f ELSE IF q.p = "content" THEN x.c ELSE x
      c == q.g + 2
      d == IF q.m = "" THEN 0 ELSE IF q.g = -2 THEN IndexIn(Flat(pm), q.m)
           ELSE IF q.g = -1 THEN IndexIn(pm.c, q.m) ELSE IndexIn(pm.g[q.g + 1].m, q.m)
  IN ((i * 3 + b) * 10 + c) * 1000 + d

\* a path of flexion in a polymorpheme
BareFlexion(q) == q.r = <<>> /\ q.p = "" /\ q.g = -2 /\ q.m # ""

DecoSeq(x) == SortSeq(SetToSeq(x.d), LAMBDA a, b : IF BareFlexion(a[1]) /\ BareFlexion(b[1]) THEN Lt(Parse(a[1].m), Parse(b[1].m)) ELSE Rank(a[1], x.u) < Rank(b[1], x.u))
DecoTexts(x) == LET q == DecoSeq(x) IN [i \in DOMAIN q |-> DecoText1(q[i])]
DecoText(x) == IF x.d = {} THEN x.u.s ELSE (IF x.u.s = "" THEN "" ELSE x.u.s \o " ") \o JoinStr(DecoTexts(x), " ")

\* the order of the paths of flexion mixed with the others, in a polymorpheme, is not specified
Mixed(x) == (\E z \in x.d : BareFlexion(z[1])) /\ (\E z \in x.d : ~BareFlexion(z[1]))

-----------------------------------------------------------------------------
(* reading *)

\* position of the first [> at or after i, 0 if there is none
RECURSIVE Opening(_, _)
Opening(txt, i) == IF i >= Len(txt) THEN 0 ELSE IF SubSeq(txt, i, i + 1) = "[>" THEN i ELSE Opening(txt, i + 1)

\* position of the first character of S at or after i, Len + 1 if there is none
RECURSIVE Find(_, _, _)
Find(txt, i, S) == IF i > Len(txt) \/ SubSeq(txt, i, i) \in S THEN i ELSE Find(txt, i + 1, S)

\* the value whose first character is at i: <<value, position after the quote>>; position 0 if there is no quote
RECURSIVE Value(_, _, _)
Value(txt, i, v) ==
  IF i > Len(txt) THEN <<v, 0>>
  ELSE LET c == SubSeq(txt, i, i)
           d == IF i < Len(txt) THEN SubSeq(txt, i + 1, i + 1) ELSE ""
       IN IF c = "\"" THEN <<v, i + 1>>
          ELSE IF c = "\\" /\ d \in {"\"", "\\"} THEN Value(txt, i + 2, v \o d)
          ELSE Value(txt, i + 1, v \o c)

SkipBlank(txt, i) == EndOf(txt, i, UBlank)

\* what remains has illegal characters or an open quote, which is not specified
RECURSIVE Illegal(_, _)
Illegal(txt, i) ==
  IF i > Len(txt) THEN FALSE
  ELSE LET c == SubSeq(txt, i, i) IN
       IF c = "\"" THEN (LET v == Value(txt, i + 1, "") IN v[2] = 0 \/ Illegal(txt, v[2]))
       ELSE c \notin RunChars \cup UBlank \cup {"(", ")", "[", "]", ">", "!"} \/ Illegal(txt, i + 1)
Refuse(txt, i, h) == <<IF Illegal(txt, i) THEN "any" ELSE "refused", h>>

\* the decorations at i: <<ok, sequence of <<path, value>> >>
RECURSIVE Decos(_, _, _)
Decos(txt, i, h) ==
  IF i > Len(txt) THEN <<"ok", h>>
  ELSE IF i = Len(txt) \/ SubSeq(txt, i, i + 1) # "[>" THEN Refuse(txt, i, h)
  ELSE LET j == Find(txt, i + 1, {"\"", "[", "]"}) IN
       IF j > Len(txt) \/ SubSeq(txt, j, j) # "\"" THEN Refuse(txt, i, h)
       ELSE LET q == PParse(SubSeq(txt, i + 1, j - 1))
                v == Value(txt, j + 1, "")
                k == IF v[2] = 0 THEN Len(txt) + 1 ELSE SkipBlank(txt, v[2])
            IN IF q.u \/ v[2] = 0 THEN <<"any", h>>           \* illegal characters
               ELSE IF k > Len(txt) \/ SubSeq(txt, k, k) # "]" THEN Refuse(txt, k, h)
               ELSE IF ~q.ok THEN Refuse(txt, k, h)
               ELSE Decos(txt, SkipBlank(txt, k + 1), Append(h, <<q, v[1]>>))

\* a morpheme alone is decorated as a polymorpheme
AsUnit(u) == IF u.k = "S" THEN MkPM(<<u.m>>, <<>>) ELSE u

DParse(txt) ==
  LET o == Opening(txt, 1) IN
  IF o = 0 THEN AnyDeco          \* not decorated
  ELSE LET u == AsUnit(UParse(SubSeq(txt, 1, o - 1)))
           z == Decos(txt, o, <<>>)
       IN IF u.k = "U" \/ z[1] = "any" THEN AnyDeco
          ELSE IF u.k = "X" \/ z[1] = "refused" THEN NoDeco
          \* the empty unit is not written; the empty morphemes have no path of their own
          ELSE IF u.s = "" \/ (\E i \in DOMAIN z[2] : z[2][i][1].m # "" /\ IsEmpty(Parse(z[2][i][1].m))) THEN AnyDeco
          ELSE IF ~HasPaths(u) \/ ~UCheck(u) THEN AnyDeco
          ELSE Decorated(u, z[2])

\* the singular sequences, each with the decorations of the components that it has
DecoSS(x) == {LET k == [x EXCEPT !.u = y, !.d = {<<Normal(z[1], y), z[2]>> : z \in {w \in x.d : Deref(w[1], y) # "refused"}}]
              IN DecoText(k) : y \in USS(x.u)}
=============================================================================
