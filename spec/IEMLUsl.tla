------------------------------ MODULE IEMLUsl ------------------------------
(***************************************************************************)
(* The units of the language (USL) built from morphemes: polymorphemes,    *)
(* lexemes and words. Reading, canonical writing, singular sequences,      *)
(* validity, order.                                                        *)
(*                                                                         *)
(* A unit is a record, k is its kind and s its canonical writing:          *)
(*  "S" morpheme      [k, s, m]         m: a morpheme of IEMLScript        *)
(*  "P" polymorpheme  [k, s, c, g]      c: the constant morphemes, sorted; *)
(*                                      g: groups [m, n], sorted           *)
(*  "L" lexeme        [k, s, f, c]      flexion and content polymorphemes  *)
(*  "W" word          [k, s, e, r, x]   e: entries [a, x] (role, lexeme)   *)
(*                                      sorted by role, r: the role that   *)
(*                                      has the focus, x: the context      *)
(*  "X" no unit: the text is refused    "U" unspecified (characters that   *)
(*                                      are not in the alphabet)           *)
(***************************************************************************)
EXTENDS IEMLScript

Refused == [k |-> "X", s |-> ""]
Unspecified == [k |-> "U", s |-> ""]
IsUsl(u) == u.k \in {"S", "P", "L", "W"}

MaxMultiplicity == 3
MaxMorphemes == 5

-----------------------------------------------------------------------------
(* roles *)

Valences == <<"E:S:.", "E:T:.", "E:B:.">>
Actants == <<"E:.n.-", "E:.d.-", "E:.k.-", "E:.t.-", "E:.l.-", "E:.m.-", "E:.f.-", "E:.s.-">>
Dependant == "E:A:."
Independant == "E:U:."
LinkOf(q) == "E:.-" \o q \o ".-k.u.-'"
Links == <<"E:S:.-k.u.-'", "E:T:.-k.u.-'", "E:B:.-k.u.-'">>
         \o [i \in 1..9 |-> LinkOf(<<"s.a", "b.a", "t.a", "k.a", "m.a", "n.a", "d.a", "f.a", "l.a">>[i])]
         \o [i \in 1..6 |-> LinkOf(<<"y", "o", "e", "u", "a", "i">>[i])]
         \o [i \in 1..4 |-> LinkOf(<<"wo", "wa", "we", "wu">>[i])]
         \o [i \in 1..9 |-> LinkOf(<<"s.u", "b.u", "t.u", "k.u", "m.u", "n.u", "d.u", "f.u", "l.u">>[i])]
Indexes == [i \in 1..12 |-> <<"j", "g", "h", "c", "p", "x">>[((i - 1) \div 2) + 1] \o ".-"
                            \o (IF i % 2 = 1 THEN "U" ELSE "A") \o ":.-'d.o.-l.o.-',"]
RoleMorphemes == Valences \o Actants \o <<Dependant, Independant>> \o Links \o Indexes

ValenceSet == Range(Valences)
ActantSet == Range(Actants)
LinkSet == TLCEval(Range(Links))
IndexSet == TLCEval(Range(Indexes))
RoleSet == TLCEval(Range(RoleMorphemes))
PosIn(q, x) == CHOOSE i \in DOMAIN q : q[i] = x
RoleRank == TLCEval([x \in RoleSet |-> PosIn(RoleMorphemes, x)])
IndexRank == TLCEval([x \in IndexSet |-> PosIn(Indexes, x)])

RoleLt(a, b) == LexLt([i \in DOMAIN a |-> RoleRank[a[i]]], [i \in DOMAIN b |-> RoleRank[b[i]]])

\* entries l = <<[a, x]>>: the sub list of the entries whose role begins with p, without it
Below(l, p) == LET q == SelectSeq(l, LAMBDA z : Len(z.a) >= Len(p) /\ SubSeq(z.a, 1, Len(p)) = p)
               IN [i \in DOMAIN q |-> [a |-> SubSeq(q[i].a, Len(p) + 1, Len(q[i].a)), x |-> q[i].x]]

RECURSIVE DepOK(_)
RECURSIVE IndepOK(_)
\* all the entries are members of one junction: same link, and the members are numbered from the first index
JuncOK(l, dep) ==
  /\ l # <<>>
  /\ \A i \in DOMAIN l : Len(l[i].a) >= 2 /\ l[i].a[1] \in LinkSet /\ l[i].a[1] = l[1].a[1] /\ l[i].a[2] \in IndexSet
  /\ LET I == {IndexRank[l[i].a[2]] : i \in DOMAIN l}
     IN I = 1..Cardinality(I)
  /\ \A d \in {l[i].a[2] : i \in DOMAIN l} :
        LET sub == Below(l, <<l[1].a[1], d>>) IN IF dep THEN DepOK(sub) ELSE IndepOK(sub)

\* a dependant: one lexeme, and optionally independant and dependant qualities; or a junction of dependants
DepOK(l) ==
  IF \E i \in DOMAIN l : l[i].a # <<>> /\ l[i].a[1] \in LinkSet THEN JuncOK(l, TRUE)
  ELSE /\ Cardinality({i \in DOMAIN l : l[i].a = <<>>}) = 1
       /\ \A i \in DOMAIN l : l[i].a = <<>> \/ l[i].a[1] \in {Dependant, Independant}
       /\ LET u == Below(l, <<Independant>>)
              d == Below(l, <<Dependant>>)
          IN (u = <<>> \/ IndepOK(u)) /\ (d = <<>> \/ DepOK(d))

IndepOK(l) == (Len(l) = 1 /\ l[1].a = <<>>) \/ JuncOK(l, FALSE)

\* the context of a list of entries: "process", "dependant", "independant" or "none" if it is not the one of a word
ContextOf(l) ==
  IF l = <<>> \/ (\E i \in DOMAIN l : l[i].a = <<>>) THEN "none"
  ELSE LET V == {i \in DOMAIN l : l[i].a[1] \in ValenceSet} IN
       IF V # {} THEN
         (IF /\ Cardinality(V) = 1
             /\ \A i \in V : Len(l[i].a) = 1
             /\ \A i \in DOMAIN l \ V : l[i].a[1] \in ActantSet
                                        /\ (\A j \in 2..Len(l[i].a) : l[i].a[j] \notin ActantSet)
             /\ \A a \in {l[i].a[1] : i \in DOMAIN l \ V} : DepOK(Below(l, <<a>>))
          THEN "process" ELSE "none")
       ELSE IF \A i \in DOMAIN l : l[i].a[1] = Dependant
            THEN (IF DepOK(Below(l, <<Dependant>>)) THEN "dependant" ELSE "none")
       ELSE IF \A i \in DOMAIN l : l[i].a[1] = Independant
            THEN (IF IndepOK(Below(l, <<Independant>>)) THEN "independant" ELSE "none")
       ELSE "none"

-----------------------------------------------------------------------------
(* constructors *)

SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i].s = b[i].s

GroupLt(a, b) == ChildrenLt(a.m, b.m) \/ (SameSeq(a.m, b.m) /\ a.n < b.n)
\* a group without any morpheme is written with the empty morpheme
GroupText(g) == "m" \o ToString(g.n) \o "("
                \o (IF g.m = <<>> THEN "E:" ELSE JoinStr([i \in DOMAIN g.m |-> g.m[i].s], " ")) \o ")"

NonEmpty(q) == SelectSeq(q, LAMBDA x : ~IsEmpty(x))

\* c: sequence of morphemes, g: sequence of [m: sequence of morphemes, n: multiplicity]. The empty morphemes are
\* left out; a group may become empty, it stays in its place
MkPM(c, g) ==
  LET cc == SortSeq(NonEmpty(c), Lt)
      g1 == [i \in DOMAIN g |-> [m |-> SortSeq(NonEmpty(g[i].m), Lt), n |-> g[i].n]]
      gg == SortSeq(g1, GroupLt)
  IN TLCEval([k |-> "P", c |-> cc, g |-> gg,
              s |-> JoinStr([i \in DOMAIN cc |-> cc[i].s] \o [i \in DOMAIN gg |-> GroupText(gg[i])], " ")])

EmptyPM == MkPM(<<>>, <<>>)
PMIsEmpty(p) == p.c = <<>> /\ p.g = <<>>

MkLex(f, c) == [k |-> "L", f |-> f, c |-> c,
                s |-> IF PMIsEmpty(c) THEN "(" \o f.s \o ")" ELSE "(" \o f.s \o ")(" \o c.s \o ")"]
LexIsEmpty(x) == PMIsEmpty(x.f) /\ PMIsEmpty(x.c)

EntryLt(a, b) == RoleLt(a.a, b.a)
\* in a word of quality the first morpheme of the role is the prefix of the context
EntryText(z, r, ctx) ==
  (IF z.a = r THEN "! " ELSE "")
  \o (IF ctx = "process" THEN JoinStr(z.a, " ") ELSE z.a[1] \o " " \o JoinStr(Tail(z.a), " "))
  \o " " \o z.x.s

MkWord(l, r) ==
  LET ctx == ContextOf(l) IN
  IF ctx = "none" \/ (\A i \in DOMAIN l : l[i].a # r) THEN Refused
  ELSE LET e == SortSeq(l, EntryLt) IN
       TLCEval([k |-> "W", e |-> e, r |-> r, x |-> ctx,
                s |-> "[" \o JoinStr([i \in DOMAIN e |-> EntryText(e[i], r, ctx)], " > ") \o "]"])

MkMorph(m) == IF IsErr(m) THEN Refused ELSE [k |-> "S", m |-> m, s |-> m.s]

\* the class of a word, given by the role that has the focus
WordClass(w) == IF \E i \in DOMAIN w.r : w.r[i] \in ValenceSet THEN "E:.b.E:S:.-"
                ELSE IF \E i \in DOMAIN w.r : w.r[i] = Independant THEN "E:.b.E:T:.-"
                ELSE "E:.b.E:B:.-"

PMClass(p) == Max3({0} \cup {p.c[i].g : i \in DOMAIN p.c})

-----------------------------------------------------------------------------
(* reading *)

Letters == Primitives \cup RemAdds \cup {"a","c","b","e","d","g","f","i","h","k","j","m","l","o","n","p","s","u","t","w","y","x"}
RunChars == Letters \cup Range(Marks) \cup {"+"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
DigitValue(c) == (CHOOSE i \in 0..9 : ToString(i) = c)
UBlank == Blank \cup {"{", "}"}

RECURSIVE EndOf(_, _, _)
EndOf(txt, i, S) == IF i > Len(txt) \/ SubSeq(txt, i, i) \notin S THEN i ELSE EndOf(txt, i + 1, S)

RECURSIVE Number(_)
Number(s) == IF Len(s) = 0 THEN 0 ELSE 10 * Number(SubSeq(s, 1, Len(s) - 1)) + DigitValue(SubSeq(s, Len(s), Len(s)))

OldClass(run) == Len(run) >= 10 /\ SubSeq(run, 1, 7) = "E:.b.E:" /\ SubSeq(run, 9, 11) = ":.-"

\* tokens <<kind, value>>: "m" morpheme, "g" group, the punctuation, "?" a character that is not in the alphabet
RECURSIVE ULex(_, _)
ULex(txt, i) ==
  IF i > Len(txt) THEN <<>>
  ELSE LET c == SubSeq(txt, i, i)
           d == SubSeq(txt, i + 1, i + 1)
       IN IF c \in UBlank THEN ULex(txt, i + 1)
          ELSE IF c \in {"(", ")", "[", "]", ">", "!"} THEN <<<<c, c>>>> \o ULex(txt, i + 1)
          ELSE IF c = "m" /\ i < Len(txt) /\ d \in Digits
               THEN LET j == EndOf(txt, i + 1, Digits) IN <<<<"g", SubSeq(txt, i + 1, j - 1)>>>> \o ULex(txt, j)
          ELSE IF c \in Letters
               THEN LET j == EndOf(txt, i, RunChars)
                        run == SubSeq(txt, i, j - 1)
                    IN <<<<(IF Len(run) < 2 \/ OldClass(run) THEN "?" ELSE "m"), run>>>> \o ULex(txt, j)
          ELSE <<<<"?", c>>>>

KindAt(tk, i) == IF i <= Len(tk) THEN tk[i][1] ELSE "end"
Fail == [ok |-> FALSE, i |-> 0, v |-> <<>>]
Got(i, v) == [ok |-> TRUE, i |-> i, v |-> v]

\* the longest list of morphemes at i: a sequence of morphemes (Err where the morpheme is refused)
RECURSIVE RMorphs(_, _)
RMorphs(tk, i) == IF KindAt(tk, i) # "m" THEN Got(i, <<>>)
                  ELSE LET q == RMorphs(tk, i + 1) IN Got(q.i, <<Parse(tk[i][2])>> \o q.v)

RECURSIVE RGroups(_, _)
RGroups(tk, i) ==
  IF KindAt(tk, i) # "g" THEN Got(i, <<>>)
  ELSE IF KindAt(tk, i + 1) # "(" THEN Fail
  ELSE LET q == RMorphs(tk, i + 2) IN
       IF q.v = <<>> \/ KindAt(tk, q.i) # ")" THEN Fail
       ELSE LET h == RGroups(tk, q.i + 1) IN
            IF ~h.ok THEN Fail ELSE Got(h.i, <<[m |-> q.v, n |-> Number(tk[i][2])]>> \o h.v)

AnyErr(q) == \E i \in DOMAIN q : IsErr(q[i])

\* a polymorpheme at i, not empty
RPM(tk, i) ==
  LET a == RMorphs(tk, i)
      b == RGroups(tk, a.i)
  IN IF ~b.ok \/ b.i = i \/ AnyErr(a.v) \/ (\E j \in DOMAIN b.v : AnyErr(b.v[j].m)) THEN Fail
     ELSE Got(b.i, MkPM(a.v, b.v))

\* the parentheses at i: <<>> for (), <<pm>> for (pm)
RECURSIVE RParens(_, _)
RParens(tk, i) ==
  IF KindAt(tk, i) # "(" THEN Got(i, <<>>)
  ELSE LET p == IF KindAt(tk, i + 1) = ")" THEN Got(i + 1, <<>>)
                ELSE LET q == RPM(tk, i + 1) IN IF q.ok THEN Got(q.i, <<q.v>>) ELSE Fail
       IN IF ~p.ok \/ KindAt(tk, p.i) # ")" THEN Fail
          ELSE LET h == RParens(tk, p.i + 1) IN IF h.ok THEN Got(h.i, <<p.v>> \o h.v) ELSE Fail

RLex(tk, i) ==
  LET p == RParens(tk, i)
      n == Len(p.v)
      has == [j \in 1..n |-> p.v[j] # <<>>]
      pm(j) == IF has[j] THEN p.v[j][1] ELSE EmptyPM
  IN IF ~p.ok THEN Fail
     ELSE IF n = 1 THEN Got(p.i, MkLex(pm(1), EmptyPM))
     ELSE IF n = 2 /\ has[2] THEN Got(p.i, MkLex(pm(1), pm(2)))
     ELSE IF n = 3 /\ has[3] /\ (has[2] \/ ~has[1])
          THEN Got(p.i, MkLex(MkPM(pm(1).c \o pm(3).c, pm(1).g \o pm(3).g), pm(2)))
     ELSE Fail

\* the entries of a word at i: v = [l: entries, r: the last role that has the focus, f: there is one]
RECURSIVE REntries(_, _, _, _)
REntries(tk, i, l, r) ==
  LET f == KindAt(tk, i) = "!"
      a == RMorphs(tk, IF f THEN i + 1 ELSE i)
      x == RLex(tk, a.i)
  IN IF ~x.ok \/ AnyErr(a.v) THEN Fail
     ELSE LET role == [j \in DOMAIN a.v |-> a.v[j].s]
              ll == Append(l, [a |-> role, x |-> x.v])
              rr == IF f THEN role ELSE r
          IN IF KindAt(tk, x.i) = ">" THEN REntries(tk, x.i + 1, ll, rr) ELSE Got(x.i, [l |-> ll, r |-> rr])

UParse(txt) ==
  LET tk == ULex(txt, 1)
      n == Len(tk)
  IN IF \E i \in 1..n : tk[i][1] = "?" THEN Unspecified
     ELSE IF n = 0 THEN Unspecified
     ELSE IF n = 1 /\ tk[1][1] = "m" THEN MkMorph(Parse(tk[1][2]))
     ELSE IF tk[1][1] \in {"m", "g"} THEN LET p == RPM(tk, 1) IN IF p.ok /\ p.i = n + 1 THEN p.v ELSE Refused
     ELSE IF tk[1][1] = "(" THEN LET p == RLex(tk, 1) IN IF p.ok /\ p.i = n + 1 THEN p.v ELSE Refused
     ELSE IF tk[1][1] = "[" THEN
          LET p == REntries(tk, 2, <<>>, <<>>) IN
          IF p.ok /\ p.i = n /\ tk[n][1] = "]" /\ p.v.r # <<>> THEN MkWord(p.v.l, p.v.r) ELSE Refused
     ELSE Refused

\* the unit that is read back from the canonical writing of u: a polymorpheme of one morpheme is read as the morpheme
ReadBack(u) == IF u.k = "P" /\ u.g = <<>> /\ Len(u.c) = 1 THEN MkMorph(u.c[1]) ELSE u

-----------------------------------------------------------------------------
(* what a unit is made of *)

RECURSIVE MorphSet(_)
\* the non empty morphemes of a unit
MorphSet(u) == CASE u.k = "S" -> IF IsEmpty(u.m) THEN {} ELSE {u.m}
                 [] u.k = "P" -> Range(u.c) \cup UNION {Range(u.g[i].m) : i \in DOMAIN u.g}
                 [] u.k = "L" -> MorphSet(u.f) \cup MorphSet(u.c)
                 [] u.k = "W" -> UNION {MorphSet(u.e[i].x) : i \in DOMAIN u.e}
Morphemes(u) == TLCEval(LET q == Sorted(MorphSet(u)) IN [i \in DOMAIN q |-> q[i].s])

UIsEmpty(u) == CASE u.k = "S" -> IsEmpty(u.m)
                 [] u.k = "P" -> PMIsEmpty(u)
                 [] u.k = "L" -> LexIsEmpty(u)
                 [] u.k = "W" -> \A i \in DOMAIN u.e : LexIsEmpty(u.e[i].x)

StartsWith(a, p) == Len(a) >= Len(p) /\ SubSeq(a, 1, Len(p)) = p

\* the node of a role: its entry and the ones below. The node of the process is the whole word
NodeEmpty(w, a) == \A j \in DOMAIN w.e : (StartsWith(w.e[j].a, a) \/ a[1] \in ValenceSet) => LexIsEmpty(w.e[j].x)
Simplify(w) == MkWord(SelectSeq(w.e, LAMBDA z : StartsWith(w.r, z.a) \/ ~NodeEmpty(w, z.a)), w.r)

-----------------------------------------------------------------------------
(* validity *)

PMCheck(p) ==
  LET parts == <<p.c>> \o [i \in DOMAIN p.g |-> p.g[i].m]
      total == [i \in DOMAIN parts |-> Len(parts[i])]
      RECURSIVE Sum(_)
      Sum(i) == IF i = 0 THEN 0 ELSE total[i] + Sum(i - 1)
  IN /\ \A i \in DOMAIN p.g : p.g[i].m # <<>> => p.g[i].n \in 1..MaxMultiplicity /\ p.g[i].n <= Len(p.g[i].m)
     /\ Cardinality({x.s : x \in MorphSet(p)}) = Sum(Len(parts))     \* disjoint, no repetition
     /\ \A x \in MorphSet(p) : x.n = 1                               \* no paradigm of morphemes

UCheck(u) == CASE u.k = "S" -> TRUE
               [] u.k = "P" -> PMCheck(u)
               [] u.k = "L" -> PMCheck(u.f) /\ PMCheck(u.c)
               [] u.k = "W" -> \A i \in DOMAIN u.e : PMCheck(u.e[i].x.f) /\ PMCheck(u.e[i].x.c)

\* the units whose singular sequences are specified: the valid ones, and the polymorphemes where a morpheme is repeated
PMRegular(p) == \A i \in DOMAIN p.g : p.g[i].n \in 1..MaxMultiplicity /\ p.g[i].n <= Len(p.g[i].m)
URegular(u) == IF u.k = "P" THEN PMRegular(u) /\ \A x \in MorphSet(u) : x.n = 1 ELSE UCheck(u)

-----------------------------------------------------------------------------
(* singular sequences of a unit *)

MinOf(a, b) == IF a < b THEN a ELSE b
SubsetsOf(S, n) == {X \in SUBSET S : Cardinality(X) = n}

\* the unions of one member of each of the sets of sets Q[1..n]
RECURSIVE Unions(_)
Unions(Q) == IF Q = <<>> THEN {{}} ELSE {a \cup b : a \in Q[1], b \in Unions(Tail(Q))}

\* the variations draw from every group as many morphemes, give or take one, at most its multiplicity
PMSS(p) ==
  IF p.g = <<>> THEN {p}
  ELSE LET n == Len(p.g)
           cap == [i \in 1..n |-> MinOf(p.g[i].n, Len(p.g[i].m))]
           low == CHOOSE v \in {cap[i] : i \in 1..n} : \A i \in 1..n : v <= cap[i]
           counts == UNION {{c \in [1..n -> {q, q + 1}] : \A i \in 1..n : c[i] <= cap[i]} : q \in 0..low}
           of(i, k) == {{p.g[i].m[j] : j \in J} : J \in SubsetsOf(DOMAIN p.g[i].m, k)}
           draws == UNION {Unions([i \in 1..n |-> of(i, c[i])]) : c \in counts}
           K == Range(p.c)
           room == MaxMorphemes - (IF p.c = <<>> THEN 1 ELSE 0)
       IN TLCEval({MkPM(SetToSeq(d \cup K), <<>>) : d \in {x \in draws : Cardinality(x \cup K) <= room}})

LexSS(x) == TLCEval({MkLex(f, c) : f \in PMSS(x.f), c \in PMSS(x.c)})

RECURSIVE WordSS(_, _, _)
WordSS(e, i, acc) ==
  IF i > Len(e) THEN acc
  ELSE WordSS(e, i + 1, {Append(a, [a |-> e[i].a, x |-> y]) : a \in acc, y \in LexSS(e[i].x)})

USS(u) == CASE u.k = "S" -> {MkMorph(z) : z \in Range(SSeq(u.m))}
            [] u.k = "P" -> PMSS(u)
            [] u.k = "L" -> LexSS(u)
            [] u.k = "W" -> TLCEval({MkWord(l, u.r) : l \in WordSS(u.e, 1, {<<>>})})
USSText(u) == TLCEval({z.s : z \in USS(u)})

-----------------------------------------------------------------------------
(* order: morphemes, then polymorphemes, lexemes, words *)

Level(u) == CASE u.k = "S" -> 0 [] u.k = "P" -> 1 [] u.k = "L" -> 2 [] u.k = "W" -> 3

\* a polymorpheme without constant has the empty morpheme for constant
ConstOf(p) == IF p.c = <<>> THEN <<Null(0)>> ELSE p.c

RECURSIVE GroupsLt(_, _)
GroupsLt(a, b) ==
  IF a = <<>> THEN b # <<>>
  ELSE IF b = <<>> THEN FALSE
  ELSE IF GroupText(a[1]) = GroupText(b[1]) THEN GroupsLt(Tail(a), Tail(b))
  ELSE GroupLt(a[1], b[1])

PMLt(a, b) ==
  LET c == ConstOf(a)
      d == ConstOf(b)
  IN IF Len(c) # Len(d) THEN Len(c) < Len(d)
     ELSE IF ~SameSeq(c, d) THEN ChildrenLt(c, d)
     ELSE GroupsLt(a.g, b.g)

LexLt2(a, b) == IF a.f.s # b.f.s THEN PMLt(a.f, b.f) ELSE PMLt(a.c, b.c)

\* the entries of a word, the prefix of a word of quality left out
Bare(w) == [i \in DOMAIN w.e |-> [a |-> IF w.x = "process" THEN w.e[i].a ELSE Tail(w.e[i].a), x |-> w.e[i].x]]

RECURSIVE EntriesLt(_, _)
EntriesLt(a, b) ==
  IF a = <<>> THEN b # <<>>
  ELSE IF b = <<>> THEN FALSE
  ELSE IF a[1].a # b[1].a THEN RoleLt(a[1].a, b[1].a)
  ELSE IF a[1].x.s # b[1].x.s THEN LexLt2(a[1].x, b[1].x)
  ELSE EntriesLt(Tail(a), Tail(b))

SameEntries(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i].a = b[i].a /\ a[i].x.s = b[i].x.s

WordLt(a, b) == LET p == Bare(a)
                    q == Bare(b)
                IN IF SameEntries(p, q) THEN RoleLt(a.r, b.r) ELSE EntriesLt(p, q)

ULt(a, b) ==
  IF Level(a) # Level(b) THEN Level(a) < Level(b)
  ELSE CASE a.k = "S" -> Lt(a.m, b.m)
         [] a.k = "P" -> PMLt(a, b)
         [] a.k = "L" -> LexLt2(a, b)
         [] a.k = "W" -> WordLt(a, b)

-----------------------------------------------------------------------------
=============================================================================
