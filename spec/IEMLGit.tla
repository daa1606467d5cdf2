------------------------------- MODULE IEMLGit -------------------------------
(***************************************************************************)
(* Databases under version control: an origin (a bare repository) and      *)
(* clones of it. A tree is a store (IEMLStore), a commit has parents and a *)
(* tree; a clone has a head (a commit) and a working store.                *)
(*   commits : id -> [p |-> sequence of parents, t |-> tree]               *)
(***************************************************************************)
EXTENDS IEMLStore

-----------------------------------------------------------------------------
(* the graph of the commits *)
RECURSIVE AncestorsFrom(_, _, _)
AncestorsFrom(cs, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET next == (UNION {Range(cs[c].p) : c \in todo}) \ (seen \cup todo)
       IN AncestorsFrom(cs, next, seen \cup todo)
\* the commit and its ancestors
Past(cs, c) == TLCEval(AncestorsFrom(cs, {c}, {}))
IsPast(cs, a, c) == a \in Past(cs, c)
MergeBases(cs, a, b) ==
  LET common == Past(cs, a) \cap Past(cs, b)
  IN {c \in common : \A d \in common \ {c} : c \notin Past(cs, d)}

-----------------------------------------------------------------------------
(* transactions: edits up to the first one that is refused, or up to an interruption after `stop` edits (-1: none).
   What another transaction commits inside of one that is interrupted is undone as well. *)
RECURSIVE Run(_, _, _, _)
Run(st, edits, k, stop) ==
  IF k - 1 = stop THEN Refused(st)
  ELSE IF k > Len(edits) THEN Done(st)
  ELSE LET r == TLCEval(Edit(st, edits[k])) IN
       IF r.ok THEN Run(r.st, edits, k + 1, stop) ELSE r

\* edits outside of any transaction: a refused edit changes nothing
RECURSIVE RunAll(_, _, _)
RunAll(st, edits, k) == IF k > Len(edits) THEN st ELSE RunAll(TLCEval(Edit(st, edits[k])).st, edits, k + 1)

\* outcome of a transaction on a clone with working store w and tree t at its head: new tree, or nothing to commit
Txn(w, t, edits, stop, sig) ==
  IF w # t THEN [ok |-> FALSE, commit |-> FALSE, st |-> w]
  ELSE LET r == Run(w, edits, 1, stop) IN
       IF ~r.ok \/ (~sig /\ r.st # t) THEN [ok |-> FALSE, commit |-> FALSE, st |-> t]
       ELSE [ok |-> TRUE, commit |-> r.st # t, st |-> r.st]

-----------------------------------------------------------------------------
(* merge of one file: b (base), x (local), y (remote), z (result). A missing file is Missing. *)
Missing == << <<"missing">> >>
FileOf(st, f) == IF f \in DOMAIN st THEN st[f] ELSE Missing

Count(q, r) == Cardinality({i \in DOMAIN q : q[i] = r})
\* obtained from b by removing rows and appending new ones
Tame(b, x) ==
  LET n == Len(SelectSeq(x, LAMBDA r : r \in Range(b)))
      old == SubSeq(x, 1, n)
      new == SubSeq(x, n + 1, Len(x))
  IN /\ \A i \in DOMAIN b, j \in DOMAIN b : i # j => b[i] # b[j]
     /\ \A i \in DOMAIN x, j \in DOMAIN x : i # j => x[i] # x[j]
     /\ old = SelectSeq(b, LAMBDA r : r \in Range(x))
     /\ \A i \in DOMAIN new : new[i] \notin Range(b)
\* what both did, row by row (a file that did not exist had no row)
CleanMerge(b0, x, y, z) ==
  LET b == IF b0 = Missing THEN <<>> ELSE b0 IN
  /\ Missing \notin {x, y, z}
  /\ \A i \in DOMAIN z : z[i] \in Range(x) \cup Range(y)
  /\ Tame(b, x) /\ Tame(b, y) =>
       \A r \in Range(b) \cup Range(x) \cup Range(y) \cup Range(z) :
         Count(z, r) = IF Count(x, r) = Count(b, r) THEN Count(y, r) ELSE Count(x, r)

\* merge of a file: z is the content after the merge, told whether a conflict is told for it
MergedFile(b, x, y, z, told, desc) ==
  IF x = y THEN z = x /\ ~told
  ELSE IF x = b THEN z = y /\ ~told
  ELSE IF y = b THEN z = x /\ ~told
  ELSE \/ (desc => told) /\ z = y
       \/ ~told /\ CleanMerge(b, x, y, z)

\* merge of trees; told: the USLs in conflict
MergedTree(B, X, Y, Z, told) ==
  LET files == DOMAIN B \cup DOMAIN X \cup DOMAIN Y \cup DOMAIN Z IN
  \A f \in files : MergedFile(FileOf(B, f), FileOf(X, f), FileOf(Y, f), FileOf(Z, f), f[1] = "desc" /\ f[2] \in told, f[1] = "desc")
ToldKnown(B, X, Y, told) == \A i \in told : <<"desc", i>> \in DOMAIN B \cup DOMAIN X \cup DOMAIN Y

\* the merged trees the model can produce: for each file changed on both sides, the remote one wins
TheirMerge(B, X, Y) ==
  LET pick(f) == IF FileOf(X, f) = FileOf(Y, f) \/ FileOf(X, f) = FileOf(B, f) THEN FileOf(Y, f)
                 ELSE IF FileOf(Y, f) = FileOf(B, f) THEN FileOf(X, f) ELSE FileOf(Y, f)
      files == DOMAIN B \cup DOMAIN X \cup DOMAIN Y
  IN TLCEval([f \in {g \in files : pick(g) # Missing} |-> pick(f)])
ConflictsOf(B, X, Y) ==
  {f[2] : f \in {g \in DOMAIN B \cup DOMAIN X \cup DOMAIN Y :
     /\ g[1] = "desc"
     /\ FileOf(X, g) # FileOf(Y, g) /\ FileOf(X, g) # FileOf(B, g) /\ FileOf(Y, g) # FileOf(B, g)}}
=============================================================================
