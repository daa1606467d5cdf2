---------------------------- MODULE Table2DTrace ----------------------------
(* judges the tables of units and the partitions of their variations (C16). e.row: the path of the rows, "" for none; e.col: the path of the columns *)
EXTENDS IEMLTable2D, Walk

Texts(q) == [i \in DOMAIN q |-> q[i].u.s]

TableV(e) ==
  LET u == UParse(e.in) IN
  IF u.k \notin {"P", "L", "W"} \/ ~IsComposed(u) \/ ~UCheck(u) THEN {}
  ELSE LET c0 == PParse(e.col)
           r0 == IF e.row = "" THEN TopPath ELSE PParse(e.row)
       IN IF Deref(c0, u) = "refused" \/ Deref(r0, u) = "refused" \/ ~TablePath(c0) \/ (e.row # "" /\ ~TablePath(r0)) THEN {}
          ELSE LET C == Normal(c0, u)
                   R == IF e.row = "" THEN <<>> ELSE <<Normal(r0, u)>>
               IN IF R # <<>> /\ ~Disjoint(R[1], C) THEN {}
                  ELSE IF ~e.ok THEN {"the table is made"}
                  ELSE LET rows == TableRows(u, R, C)
                           cols == TableCols(u, C)
                       IN Failing(<< <<"rows of the table", e.rows = Texts(rows)>>,
                                     <<"columns of the table", e.cols = Texts(cols)>>,
                                     <<"cells of the table", e.cells = [i \in DOMAIN rows |-> [j \in DOMAIN cols |-> After(u, rows[i].S \cup cols[j].S).s]]>>,
                                     <<"the unit is not modified", e.after = u.s>> >>)

\* op "parts": the partitions of the variations (a sequence of sequences of texts of paths) and the number of the smallest ones
PartsV(e) ==
  LET u == UParse(e.in) IN
  IF u.k \notin {"P", "L", "W"} \/ ~IsComposed(u) \/ ~UCheck(u) \/ ~HasPaths(u) \/ \E z \in MorphSet(u) : z.n # 1 THEN {}
  ELSE IF ~e.ok THEN {"the partitions are listed"}
  ELSE LET V == VaryingPaths(u)
           want == {{PathText(p) : p \in S} : S \in Antichains(V)}
           got == {Range(e.parts[i]) : i \in DOMAIN e.parts}
       IN Failing(<< <<"partitions of the variations", got = want>>,
                     <<"every partition is listed once", Len(e.parts) = Cardinality(got) /\ \A i \in DOMAIN e.parts : Cardinality(Range(e.parts[i])) = Len(e.parts[i])>>,
                     <<"number of the dimensions of variation", e.dim = Cardinality(VaryingLeaves(V))>>,
                     <<"the unit is not modified", e.after = u.s>> >>)

Table2DVerdict(e) == CASE e.op = "table" -> TableV(e)
                       [] e.op = "parts" -> PartsV(e)
                       [] OTHER -> {"unknown observation " \o e.op}
=============================================================================
