----------------------------- MODULE IEMLTables -----------------------------
(***************************************************************************)
(* The tables of a paradigm: cells, scripts of the tables, headers; and    *)
(* the contract of the factorisation.                                      *)
(***************************************************************************)
EXTENDS IEMLScript

ErrTab == [err |-> TRUE, cells |-> <<>>, ts |-> <<>>, hd |-> <<>>]

Subst(x, i, y) == MkMul([k \in 1..3 |-> IF k = i THEN y ELSE x.ch[k]])

MapCells(c, F(_)) == [i \in DOMAIN c |-> [j \in DOMAIN c[i] |-> [k \in DOMAIN c[i][j] |-> F(c[i][j][k])]]]

RECURSIVE TabOf(_)
Tab(x) == TLCEval(TabOf(x))
TabOf(x) ==
  IF x.n = 1 THEN [err |-> FALSE, cells |-> << << << <<x>> >> >> >>, ts |-> <<x>>, hd |-> <<>>]
  ELSE IF x.t = "A" THEN
    IF \E i \in DOMAIN x.ch : x.ch[i].n = 1
    THEN LET ss == SSeq(x) IN
         [err |-> FALSE, cells |-> <<[r \in DOMAIN ss |-> << <<ss[r]>> >>]>>, ts |-> <<x>>, hd |-> << << <<x>> >> >>]
    ELSE LET T == [i \in DOMAIN x.ch |-> Tab(x.ch[i])] IN
         IF \E i \in DOMAIN T : T[i].err THEN ErrTab
         ELSE [err |-> FALSE,
               cells |-> CatAll([i \in DOMAIN T |-> T[i].cells]),
               ts |-> CatAll([i \in DOMAIN T |-> T[i].ts]),
               hd |-> CatAll([i \in DOMAIN T |-> T[i].hd])]
  ELSE
    LET pl == SelectSeq(<<1, 2, 3>>, LAMBDA i : x.ch[i].n # 1) IN
    IF Len(pl) = 1 THEN
      LET i == pl[1]
          T == Tab(x.ch[i])
          Up(y) == Subst(x, i, y)
      IN IF T.err THEN ErrTab
         ELSE [err |-> FALSE,
               cells |-> [k \in DOMAIN T.cells |-> MapCells(T.cells[k], Up)],
               ts |-> [k \in DOMAIN T.ts |-> Up(T.ts[k])],
               hd |-> [k \in DOMAIN T.hd |-> [d \in DOMAIN T.hd[k] |-> [h \in DOMAIN T.hd[k][d] |-> Up(T.hd[k][d][h])]]]]
    ELSE IF \E i \in DOMAIN pl : x.ch[pl[i]].n > MaxHeader THEN ErrTab
    ELSE
      LET R == SSeq(x.ch[pl[1]])
          C == SSeq(x.ch[pl[2]])
          Z == IF Len(pl) = 3 THEN SSeq(x.ch[pl[3]]) ELSE <<Null(0)>>
          cell(r, c, z) == IF Len(pl) = 3 THEN MkMul(<<r, c, z>>)
                           ELSE Subst(Subst(x, pl[1], r), pl[2], c)
          cells == [i \in DOMAIN R |-> [j \in DOMAIN C |-> [k \in DOMAIN Z |-> cell(R[i], C[j], Z[k])]]]
      IN IF Len(pl) = 2
         THEN [err |-> FALSE, cells |-> <<cells>>, ts |-> <<x>>,
               hd |-> << << [i \in DOMAIN R |-> Subst(x, pl[1], R[i])], [j \in DOMAIN C |-> Subst(x, pl[2], C[j])] >> >>]
         ELSE [err |-> FALSE, cells |-> <<cells>>,
               ts |-> [k \in DOMAIN Z |-> Subst(x, 3, Z[k])],
               hd |-> [k \in DOMAIN Z |-> << [i \in DOMAIN R |-> MkMul(<<R[i], x.ch[2], Z[k]>>)],
                                              [j \in DOMAIN C |-> MkMul(<<x.ch[1], C[j], Z[k]>>)] >>]]

\* as texts, to compare with what the library returns
StrS(q) == [i \in DOMAIN q |-> q[i].s]
CellsText(T) == [k \in DOMAIN T.cells |-> LET U(x) == x.s IN MapCells(T.cells[k], U)]
HeadText(T) == [k \in DOMAIN T.hd |-> [d \in DOMAIN T.hd[k] |-> StrS(T.hd[k][d])]]

CellSet(T) == UNION {{T.cells[k][i][j][z].s : i \in DOMAIN T.cells[k], j \in DOMAIN T.cells[k][1], z \in DOMAIN T.cells[k][1][1]}
                     : k \in DOMAIN T.cells}

-----------------------------------------------------------------------------
(* factorisation *)

RECURSIVE Promote(_, _)
Promote(x, l) == IF x.l >= l THEN x ELSE Promote(MkMul(<<x, Null(x.l), Null(x.l)>>), l)

Proj(S, i) == {IF x.t = "N" THEN Null(x.l - 1) ELSE x.ch[i] : x \in S}

\* the set S of singular sequences (layer > 0) is a product
IsProductSet(S) == Cardinality(S) = Cardinality(Proj(S, 1)) * Cardinality(Proj(S, 2)) * Cardinality(Proj(S, 3))

\* r is a well formed factorisation: its addends are pairwise disjoint, a product set is written
\* as a single product, and this holds in every child
RECURSIVE WellFactored(_)
WellFactored(r) ==
  IF r.n = 1 \/ r.l = 0 THEN TRUE
  ELSE /\ r.t = "A" => /\ ~IsProductSet(Range(SSeq(r)))
                       /\ LET card == [i \in DOMAIN r.ch |-> r.ch[i].n]
                              F[i \in 0..Len(r.ch)] == IF i = 0 THEN 0 ELSE F[i - 1] + card[i]
                          IN F[Len(r.ch)] = r.n
                       /\ \A i \in DOMAIN r.ch : WellFactored(r.ch[i])
       /\ r.t = "M" => \A i \in 1..3 : WellFactored(r.ch[i])
=============================================================================
