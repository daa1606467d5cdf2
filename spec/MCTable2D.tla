----------------------------- MODULE MCTable2D ------------------------------
(***************************************************************************)
(* The units built by MCUsl, with the laws of their tables (C16).          *)
(***************************************************************************)
EXTENDS MCUsl, IEMLTable2D

CONSTANTS MaxCells,   \* the tables of the units that have more variations are not computed
          LexMax,     \* the lexemes that have more variations are not put in words
          RolesOf2    \* the roles of the entries that are added

\* the construction of units that have several components with variations
NVar(u) == Cardinality(USS(u))
ToWordT == /\ x.k = "L" /\ UCheck(x) /\ NVar(x) \in 2..LexMax /\ d' = 0
           /\ \E a \in Roles : x' = MkWord(<<[a |-> a, x |-> x]>>, a) /\ x'.k = "W"
AddEntryT == /\ x.k = "W" /\ d < WDepth /\ d' = d + 1
             /\ \E a \in RolesOf2, t \in Lexs : x' = MkWord(Append(x.e, [a |-> a, x |-> LexPool[t]]), x.r) /\ x'.k = "W"
MoveFocusT == x.k = "W" /\ d < WDepth /\ d' = d + 1 /\ MoveFocus
TableSpec == Init /\ [][PMStep \/ ToLex \/ ToWordT \/ AddEntryT \/ MoveFocusT]_vars
Roles1 == {<<"E:A:.">>, <<"E:S:.">>}
Roles2 == {<<"E:A:.", "E:U:.">>, <<"E:.n.-">>}

Paths2 == {z[1] : z \in {y \in UPaths(x, FALSE) : TablePath(y[1])}}
Pairs2 == {<<R, C>> \in ({<<>>} \cup {<<q>> : q \in Paths2}) \X Paths2 : R = <<>> \/ Disjoint(R[1], C)}

Cells(rows, cols) == TLCEval([i \in DOMAIN rows |-> [j \in DOMAIN cols |-> After(x, rows[i].S \cup cols[j].S)]])
MorphsAll(S) == UNION {USSText(y) : y \in S}

TableLaw == (x.s # "" /\ IsComposed(x) /\ UCheck(x) /\ LET n == NVar(x) IN n > 1 /\ n <= MaxCells) =>
  \A p \in Pairs2 :
    LET rows == TableRows(x, p[1], p[2])
        cols == TableCols(x, p[2])
        cells == Cells(rows, cols)
        all == {cells[i][j] : i \in DOMAIN rows, j \in DOMAIN cols}
    IN \* a strict order, without repetition
       /\ \A i \in 1..(Len(rows) - 1) : ULt(rows[i].u, rows[i + 1].u)
       /\ \A j \in 1..(Len(cols) - 1) : ULt(cols[j].u, cols[j + 1].u)
       /\ Cardinality(all) = Len(rows) * Len(cols)
       \* every cell is a valid unit of the same kind
       /\ \A c \in all : c.k = x.k /\ MorphSet(c) \subseteq MorphSet(x)
       \* the variations of a row are in its cells, those of a column in its cells, those of the unit in the table
       /\ \A i \in DOMAIN rows : USSText(rows[i].u) \subseteq MorphsAll({cells[i][j] : j \in DOMAIN cols})
       /\ \A j \in DOMAIN cols : USSText(cols[j].u) \subseteq MorphsAll({cells[i][j] : i \in DOMAIN rows})
       \* without rows, only what the columns do not have varies in the rows
       /\ (p[1] = <<>>) => (USSText(x) \subseteq MorphsAll(all) /\ \A c \in all : USS(c) = {c})

EmitTable == (x.s # "" /\ x.k # "S") => (PrintT("CASE " \o ToJson([s |-> x.s])))
=============================================================================
