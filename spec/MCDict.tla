------------------------------- MODULE MCDict -------------------------------
(***************************************************************************)
(* The state machine of the edition of a dictionary: paradigms and rows of *)
(* structure are added one by one. In every state the dictionary computed  *)
(* from them obeys the laws, and is printed to be built by the library.    *)
(***************************************************************************)
EXTENDS IEMLDict, Json

CONSTANTS RootPool, Sub, Inhib, Depth
VARIABLES par, rows
vars == <<par, rows>>

Init == \E r \in RootPool : par = {r} /\ rows = {<<r, "is_root", "True">>}

AddParadigm == \E p \in Sub : p \notin par /\ par' = par \cup {p} /\ UNCHANGED rows
AddRoot == \E p \in RootPool : /\ <<p, "is_root", "True">> \notin rows
                               /\ par' = par \cup {p}
                               /\ rows' = rows \cup {<<p, "is_root", "True">>}
Ignore == \E p \in par : /\ Parse(p).n > 1
                         /\ <<p, "is_ignored", "True">> \notin rows
                         /\ rows' = rows \cup {<<p, "is_ignored", "True">>} /\ UNCHANGED par
Inhibit == \E p \in RootPool \cap par, i \in Inhib : /\ <<p, "inhibition", i>> \notin rows
                                             /\ rows' = rows \cup {<<p, "inhibition", i>>} /\ UNCHANGED par

Size == Cardinality(par) + Cardinality(rows)
Next == Size < Depth + 2 /\ (AddParadigm \/ AddRoot \/ Ignore \/ Inhibit)
Spec == Init /\ [][Next]_vars

DD == Dict(par, rows)

\* C08
Content(D) ==
  /\ \A i \in 1..(Len(D.scripts) - 1) : Lt(D.scripts[i], D.scripts[i + 1])
  /\ \A x \in Range(D.scripts) : \E r \in D.roots : SSet(x) \subseteq SSet(Parse(r))
  /\ \A r \in D.roots : r \in {x.s : x \in Range(D.scripts)}
  /\ \A r \in D.roots : SSet(Parse(r)) \subseteq {x.s : x \in Range(D.scripts)}
ContentLaw == LET D == DD IN D.err \/ Content(D)

\* C09: a forest: the roots have rank 0, every other table is included in its parent and has a rank in 1..5
InForest(D) ==
  \A x \in Range(D.scripts) :
    /\ D.ranks[x.s] = 0 <=> x.s \in D.roots
    /\ D.ranks[x.s] = 6 <=> x.n = 1
    /\ D.ranks[x.s] \in 0..6
    /\ x.s \notin D.roots => /\ D.parent[x.s] \in {y.s : y \in Range(D.scripts)}
                             /\ Includes(Parse(D.parent[x.s]), x)
                             /\ D.rootof[D.parent[x.s]] = D.rootof[x.s]
                             /\ x.n > 1 => D.ranks[D.parent[x.s]] <= D.ranks[x.s]
ForestLaw == LET D == DD IN D.err \/ InForest(D)

\* C10
Symmetric == {"opposed", "associated", "crossed", "twin", "identity",
              "table_0", "table_1", "table_2", "table_3", "table_4", "table_5"}
Related(D) ==
  LET R == Relations(D) IN
  /\ \A n \in Symmetric : R[n] = Converse(R[n])
  /\ \A n \in {"opposed", "associated", "crossed", "twin"} : \A p \in R[n] : p[1] # p[2]
  /\ \A p \in R.contains : \A c \in {q \in R.contains : q[1] = p[2]} : <<p[1], c[2]>> \in R.contains
  /\ \A r \in D.roots : \A n \in D.inh[r] : \A p \in R[n] : D.rootof[D.scripts[p[1] + 1].s] # r
RelationLaw == LET D == DD IN D.err \/ Related(D)

Emit == PrintT("CASE " \o ToJson([par |-> par, rows |-> rows]))
=============================================================================
