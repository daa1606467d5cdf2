------------------------------ MODULE IEMLDict ------------------------------
(***************************************************************************)
(* The dictionary: content, forest of tables with their ranks, semantic    *)
(* relations. A dictionary is a function of                                *)
(*   paradigms : a set of canonical texts                                  *)
(*   rows      : a set of <<paradigm, key, value>> (structure)             *)
(* whatever the order in which they are given.                             *)
(***************************************************************************)
EXTENDS IEMLTables

IsTrue(v) == v \in {"True", "true", "T", "t", "TRUE"}

RootTexts(par, rows) == {p \in par : /\ \E r \in rows : r[1] = p /\ r[2] = "is_root" /\ IsTrue(r[3])
                                     /\ ~ \E r \in rows : r[1] = p /\ r[2] = "is_ignored" /\ IsTrue(r[3])}
IgnoredTexts(par, rows) == {p \in par : \E r \in rows : r[1] = p /\ r[2] = "is_ignored" /\ IsTrue(r[3])}
Inhibited(rows, root) == {r[3] : r \in {q \in rows : q[1] = root /\ q[2] = "inhibition"}}

Overlap(roots) == \E a, b \in roots : a # b /\ SSet(a) \cap SSet(b) # {}

-----------------------------------------------------------------------------
(* tables *)

Shape(cells) == <<Len(cells), Len(cells[1]), Len(cells[1][1])>>
DimsOf(sh) == Cardinality({i \in 1..3 : sh[i] # 1})

\* "cell", "1D", "2D", "3D", "set" ; x a morpheme and T its tables
KindOf(x, T) == IF x.n = 1 THEN "cell"
                ELSE IF Len(T.ts) = 1 THEN (IF DimsOf(Shape(T.cells[1])) = 1 THEN "1D" ELSE "2D")
                ELSE IF Len(T.cells) = 1 THEN "3D" ELSE "set"

RankOf(prank, pkind, regular) == LET m == IF prank < 1 THEN 1 ELSE prank IN
                                 IF pkind \in {"set", "3D"} THEN m ELSE IF regular THEN m + 2 ELSE m + 1

\* one dimension of a connexe tiling: indexes I (0 based) in a dimension of size n
TilingDim(I, n) ==
  LET missing == (0..(n - 1)) \ I
      tr == {j \in missing : (j + 1) % n \notin missing}
      step == n \div Cardinality(tr)
  IN /\ Cardinality(tr) > 1 => \A j \in tr : (j + step) % n \in tr
     /\ Cardinality(I) >= 2

\* entry of a table: [x, T, kind, rank, parent (text), pkind]
\* does the table of e accept the paradigm s?  <<accepted, regular>>
Accept(e, s) ==
  IF e.kind = "2D" THEN
    IF ~Includes(e.x, s) \/ (e.rank # 0 /\ e.rank % 2 = 0) THEN <<FALSE, FALSE>>
    ELSE LET cells == e.T.cells[1]
             S == SSet(s)
             coords == {<<i, j>> \in (DOMAIN cells) \X (DOMAIN cells[1]) : cells[i][j][1].s \in S}
             I == {c[1] - 1 : c \in coords}
             J == {c[2] - 1 : c \in coords}
             isdim == Cardinality(I) = Len(cells) \/ Cardinality(J) = Len(cells[1])
             count == IF Cardinality(I) = Len(cells) THEN Cardinality(J) ELSE Cardinality(I)
         IN IF isdim /\ count = 1 THEN <<TRUE, TRUE>>
            ELSE IF isdim \/ (/\ TilingDim(I, Len(cells)) /\ TilingDim(J, Len(cells[1]))
                              /\ Cardinality(coords) = Cardinality(I) * Cardinality(J))
                 THEN <<TRUE, FALSE>>
                 ELSE <<FALSE, FALSE>>
  ELSE IF e.kind = "1D" THEN
    IF ~Includes(e.x, s) THEN <<FALSE, FALSE>>
    ELSE LET cells == e.T.cells[1]
             S == SSet(s)
             I == {i \in DOMAIN cells : cells[i][1][1].s \in S}
             mx == CHOOSE i \in I : \A j \in I : j <= i
             mn == CHOOSE i \in I : \A j \in I : i <= j
         IN IF Cardinality(I) = mx - mn + 1 THEN <<TRUE, TRUE>> ELSE <<FALSE, FALSE>>
  ELSE IF e.kind \in {"set", "3D"} THEN
    IF e.pkind \in {"set", "3D"} THEN <<FALSE, FALSE>>
    ELSE LET ts == {i \in DOMAIN e.T.ts : Includes(s, e.T.ts[i])} IN
         IF ts # {} /\ UNION {SSet(e.T.ts[i]) : i \in ts} = SSet(s) THEN <<TRUE, FALSE>> ELSE <<FALSE, FALSE>>
  ELSE <<FALSE, FALSE>>

\* the paradigms are placed by decreasing cardinal, then in the order of the morphemes
PlaceLt(a, b) == IF a.n # b.n THEN a.n > b.n ELSE Lt(a, b)

RECURSIVE Place(_, _)
Place(todo, defined) ==
  IF todo = <<>> THEN defined
  ELSE LET s == todo[1]
           T == Tab(s)
           cand == {e \in defined : LET a == Accept(e, s) IN a[1] /\ RankOf(e.rank, e.kind, a[2]) <= 5}
       IN IF cand = {} THEN Place(Tail(todo), defined)
          ELSE LET e == CHOOSE e \in cand : \A f \in cand : f.x.s # e.x.s => Lt(e.x, f.x)
                   new == [x |-> s, T |-> T, kind |-> KindOf(s, T), rank |-> RankOf(e.rank, e.kind, Accept(e, s)[2]),
                           parent |-> e.x.s, pkind |-> e.kind]
               IN Place(Tail(todo), defined \cup {new})

\* the tables (cells excepted) of the root r among the morphemes P
Forest(r, P) ==
  LET T == Tab(r)
      root == [x |-> r, T |-> T, kind |-> KindOf(r, T), rank |-> 0, parent |-> "", pkind |-> ""]
      sub == {p \in P : p.n > 1 /\ p.s # r.s /\ Includes(r, p)}
  IN Place(SortSeq(SetToSeq(sub), PlaceLt), {root})

ErrDict == [err |-> TRUE]

DictOf(par, rows) ==
  LET roots == {Parse(p) : p \in RootTexts(par, rows)}
      P == {Parse(p) : p \in par \ IgnoredTexts(par, rows)}
      forests == [r \in {q.s : q \in roots} |-> LET rr == CHOOSE q \in roots : q.s = r IN Forest(rr, P)]
      tables == UNION {forests[r] : r \in DOMAIN forests}
      ss == UNION {Range(SSeq(r)) : r \in roots}
      all == Sorted({e.x : e \in tables} \cup ss)
  IN IF Overlap(roots) \/ \E r \in roots : Tab(r).err THEN ErrDict
     ELSE [err |-> FALSE,
           scripts |-> all,
           roots |-> {r.s : r \in roots},
           forests |-> forests,
           \* text of a plural morpheme -> its entry
           ranks |-> [t \in {x.s : x \in Range(all)} |->
                       IF \E e \in tables : e.x.s = t THEN (CHOOSE e \in tables : e.x.s = t).rank ELSE 6],
           parent |-> [t \in {x.s : x \in Range(all)} |->
                       IF \E e \in tables : e.x.s = t THEN (CHOOSE e \in tables : e.x.s = t).parent
                       ELSE (CHOOSE r \in roots : t \in SSet(r)).s],
           kind |-> [t \in {x.s : x \in Range(all)} |->
                       IF \E e \in tables : e.x.s = t THEN (CHOOSE e \in tables : e.x.s = t).kind ELSE "cell"],
           rootof |-> [t \in {x.s : x \in Range(all)} |->
                       (CHOOSE r \in roots : Parse(t).l = r.l /\ SSet(Parse(t)) \subseteq SSet(r)).s],
           inh |-> [r \in {q.s : q \in roots} |-> Inhibited(rows, r)]]
Dict(par, rows) == TLCEval(DictOf(par, rows))

-----------------------------------------------------------------------------
(* relations: sets of pairs of indexes (0 based) *)

\* the nearest morphemes of the dictionary under x that are not sums
RECURSIVE Fathers(_, _)
Fathers(x, D) ==
  LET parts == IF x.t = "A" THEN Range(x.ch) ELSE {x}
      known == {d.s : d \in Range(D.scripts)}
  IN UNION {IF y.t = "N" THEN {}
            ELSE IF y.s \in known THEN {y.s}
            ELSE IF y.l > 0 THEN UNION {Fathers(y.ch[i], D) : i \in 1..3} ELSE {}
            : y \in parts}

FatherRel(D, k, name) ==
  UNION {IF name \in D.inh[D.rootof[D.scripts[i].s]] THEN {}
         ELSE LET x == D.scripts[i]
                  parts == IF x.t = "A" THEN Range(x.ch) ELSE {x}
                  f == UNION {IF y.t # "M" THEN {} ELSE Fathers(y.ch[k], D) : y \in parts}
              IN {<<i - 1, j - 1>> : j \in {j \in DOMAIN D.scripts : D.scripts[j].s \in f}}
         : i \in DOMAIN D.scripts}

Converse(R) == {<<p[2], p[1]>> : p \in R}

ContainsRel(D) ==
  {<<i - 1, j - 1>> : <<i, j>> \in
     {q \in (DOMAIN D.scripts) \X (DOMAIN D.scripts) :
        \/ q[1] = q[2]
        \/ /\ D.scripts[q[1]].n > 1
           /\ D.rootof[D.scripts[q[1]].s] = D.rootof[D.scripts[q[2]].s]
           /\ Includes(D.scripts[q[1]], D.scripts[q[2]])}}

\* a null morpheme is the product of three null ones
Child(a, k) == IF a.t = "N" THEN Null(a.l - 1) ELSE a.ch[k]

Opposed(a, b) == /\ a.t = "M" /\ b.t = "M" /\ a.n = b.n
                 /\ a.ch[1].s = b.ch[2].s /\ a.ch[2].s = b.ch[1].s
Associated(a, b) == /\ a.n = b.n /\ Child(a, 1).s = Child(b, 1).s /\ Child(a, 2).s = Child(b, 2).s /\ Child(a, 3).s # Child(b, 3).s
Crossed(a, b) == a.l >= 2 /\ a.n = b.n /\ Opposed(Child(a, 1), Child(b, 1)) /\ Opposed(Child(a, 2), Child(b, 2))
Twin(a, b) == a.n = b.n /\ Child(a, 1).s = Child(a, 2).s /\ Child(b, 1).s = Child(b, 2).s

SiblingRel(D, name, P(_, _)) ==
  {<<i - 1, j - 1>> : <<i, j>> \in
     {q \in (DOMAIN D.scripts) \X (DOMAIN D.scripts) :
        LET a == D.scripts[q[1]]
            b == D.scripts[q[2]]
        IN /\ q[1] # q[2]
           /\ a.l > 0 /\ a.t \in {"M", "N"} /\ b.t \in {"M", "N"}
           /\ D.rootof[a.s] = D.rootof[b.s]
           /\ name \notin D.inh[D.rootof[a.s]]
           /\ P(a, b)}}

\* both are contained in a table of rank k
TableRel(D, C, k) ==
  {<<i - 1, j - 1>> : <<i, j>> \in
     {q \in (DOMAIN D.scripts) \X (DOMAIN D.scripts) :
        \E c \in DOMAIN D.scripts : /\ D.ranks[D.scripts[c].s] = k
                                    /\ <<c - 1, q[1] - 1>> \in C
                                    /\ <<c - 1, q[2] - 1>> \in C}}

RelationsOf(D) ==
  LET C == ContainsRel(D)
      fs == FatherRel(D, 1, "father_substance")
      fa == FatherRel(D, 2, "father_attribute")
      fm == FatherRel(D, 3, "father_mode")
  IN [contains |-> C, contained |-> Converse(C),
      father_substance |-> fs, child_substance |-> Converse(fs),
      father_attribute |-> fa, child_attribute |-> Converse(fa),
      father_mode |-> fm, child_mode |-> Converse(fm),
      opposed |-> SiblingRel(D, "opposed", Opposed), associated |-> SiblingRel(D, "associated", Associated),
      crossed |-> SiblingRel(D, "crossed", Crossed), twin |-> SiblingRel(D, "twin", Twin),
      table_0 |-> TableRel(D, C, 0), table_1 |-> TableRel(D, C, 1), table_2 |-> TableRel(D, C, 2),
      table_3 |-> TableRel(D, C, 3), table_4 |-> TableRel(D, C, 4), table_5 |-> TableRel(D, C, 5),
      identity |-> {<<i - 1, i - 1>> : i \in DOMAIN D.scripts}]
Relations(D) == TLCEval(RelationsOf(D))
=============================================================================
