-------------------------------- MODULE MCGit --------------------------------
(***************************************************************************)
(* An origin "O" and clones that commit transactions, fail, edit without   *)
(* committing, reset, pull from each other and push to the origin.         *)
(***************************************************************************)
EXTENDS IEMLGit, Json

CONSTANTS Clones, Pool, Depth, Commits, Remotes
VARIABLES commits, heads, work, hist, last
vars == <<commits, heads, work, hist, last>>

E0 == [a |-> "", i |-> "", l |-> "", c |-> "", k |-> "", v |-> "", hv |-> FALSE]
AddOf(i, v) == [E0 EXCEPT !.a = "add", !.i = i, !.l = "fr", !.c = "comments", !.v = v, !.hv = TRUE]
RemOf(i, v) == [E0 EXCEPT !.a = "rem", !.i = i, !.l = "fr", !.c = "comments", !.v = v, !.hv = TRUE]
DelOf(i) == [E0 EXCEPT !.a = "rem", !.i = i]
BadOf(i) == [E0 EXCEPT !.a = "add", !.i = i, !.l = "xx", !.c = "comments", !.v = "v", !.hv = TRUE]
PutOf(path, v) == [E0 EXCEPT !.a = "put", !.i = path, !.v = v, !.hv = TRUE]
\* the edits of one transaction
PoolAlone == {<<AddOf("a.", "1")>>, <<AddOf("a.", "2"), DelOf("a.")>>, <<AddOf("O:M:.", "1"), AddOf("a.", "2")>>, <<DelOf("a.")>>,
              <<AddOf("a.", "3"), BadOf("a.")>>, <<RemOf("a.", "1")>>, <<PutOf("lexeme/.note", "1"), DelOf("a.")>>}
PoolBoth == {<<AddOf("a.", "1")>>, <<AddOf("a.", "2")>>, <<DelOf("a.")>>, <<AddOf("y.", "1")>>}
PoolMore == PoolBoth \cup {<<RemOf("a.", "1")>>, <<AddOf("y.", "2"), AddOf("a.", "3")>>}

Repos == Clones \cup {"O"}
S0 == [op |-> "", at |-> "", edits |-> <<>>, stop |-> -1, sig |-> TRUE, to |-> 0, from |-> "", away |-> FALSE, force |-> FALSE, what |-> ""]

Init == /\ commits = (1 :> [p |-> <<>>, t |-> Empty])
        /\ heads = [r \in Repos |-> 1]
        /\ work = [r \in Clones |-> Empty]
        /\ hist = <<>>
        /\ last = [op |-> "", ok |-> TRUE]

Next1(s, ok) == hist' = Append(hist, s) /\ last' = [op |-> s.op, ok |-> ok]
New == Cardinality(DOMAIN commits) + 1
AddCommit(c) == commits' = TLCEval([i \in 1..New |-> IF i = New THEN c ELSE commits[i]])

DoTxn(r, edits, stop) ==
  LET t == Txn(work[r], commits[heads[r]].t, edits, stop, TRUE) IN
  /\ Next1([S0 EXCEPT !.op = "txn", !.at = r, !.edits = edits, !.stop = stop], t.ok)
  /\ work' = [work EXCEPT ![r] = t.st]
  /\ IF t.commit THEN AddCommit([p |-> <<heads[r]>>, t |-> t.st]) /\ heads' = [heads EXCEPT ![r] = New]
     ELSE UNCHANGED <<commits, heads>>
DoEdit(r, edits) ==
  /\ "edit" \in Remotes
  /\ Next1([S0 EXCEPT !.op = "edit", !.at = r, !.edits = edits], TRUE)
  /\ work' = [work EXCEPT ![r] = RunAll(work[r], edits, 1)]
  /\ UNCHANGED <<commits, heads>>
DoReset(r, c) ==
  /\ "reset" \in Remotes
  /\ IsPast(commits, c, heads[r])
  /\ Next1([S0 EXCEPT !.op = "reset", !.at = r, !.to = c], TRUE)
  /\ work' = [work EXCEPT ![r] = commits[c].t]
  /\ heads' = [heads EXCEPT ![r] = c]
  /\ UNCHANGED commits
DoPull(r, o) ==
  LET h == heads[r]
      t == heads[o]
      told == hist IN
  /\ "pull" \in Remotes
  /\ o # r
  /\ work[r] = commits[h].t
  /\ Next1([S0 EXCEPT !.op = "pull", !.at = r, !.from = o], TRUE)
  /\ IF IsPast(commits, t, h) THEN UNCHANGED <<commits, heads, work>>
     ELSE IF IsPast(commits, h, t) THEN
       heads' = [heads EXCEPT ![r] = t] /\ work' = [work EXCEPT ![r] = commits[t].t] /\ UNCHANGED commits
     ELSE LET bases == MergeBases(commits, h, t) IN
          /\ Cardinality(bases) = 1
          /\ LET m == TheirMerge(commits[CHOOSE b \in bases : TRUE].t, commits[h].t, commits[t].t) IN
             /\ AddCommit([p |-> <<h, t>>, t |-> m])
             /\ heads' = [heads EXCEPT ![r] = New]
             /\ work' = [work EXCEPT ![r] = m]
DoPush(r, force) ==
  /\ "push" \in Remotes
  /\ LET can == force \/ IsPast(commits, heads["O"], heads[r]) IN
     /\ Next1([S0 EXCEPT !.op = "push", !.at = r, !.from = "O", !.force = force], can)
     /\ heads' = IF can THEN [heads EXCEPT !["O"] = heads[r]] ELSE heads
  /\ UNCHANGED <<commits, work>>

Next == /\ Len(hist) < Depth
        /\ \E r \in Clones :
             \/ \E e \in Pool : Cardinality(DOMAIN commits) < Commits /\ DoTxn(r, e, -1)
             \/ \E e \in Pool : "edit" \in Remotes /\ DoTxn(r, e, Len(e))
             \/ \E e \in Pool : DoEdit(r, e)
             \/ \E c \in DOMAIN commits : DoReset(r, c)
             \/ \E o \in Repos : DoPull(r, o)
             \/ DoPush(r, FALSE)
Spec == Init /\ [][Next]_vars
View == <<commits, heads, work, last, Len(hist)>>

Step == hist' # hist
Op == hist'[Len(hist')]

\* C23: a transaction is all or nothing, on top of what was there
Atomic == [][Step /\ Op.op = "txn" =>
              LET r == Op.at
                  full == Run(commits[heads[r]].t, Op.edits, 1, -1) IN
              \/ heads'[r] = heads[r] /\ work'[r] = work[r]
              \/ /\ last'.ok /\ Op.stop = -1 /\ full.ok
                 /\ commits'[heads'[r]].p = <<heads[r]>>
                 /\ commits'[heads'[r]].t = full.st /\ work'[r] = full.st]_vars
\* a clone that was not edited outside of a transaction has the files of its head
Faithful == \A r \in Clones : (\A k \in DOMAIN hist : hist[k].at = r => hist[k].op # "edit") => work[r] = commits[heads[r]].t
\* nothing but a reset goes back in the history
Grows == [][\A r \in Repos : IsPast(commits', heads[r], heads'[r]) \/ (Step /\ Op.op = "reset" /\ Op.at = r)]_vars
\* C24: the merge of the model is a merge
MergeLaw == [][Step /\ Op.op = "pull" /\ DOMAIN commits' # DOMAIN commits =>
                LET c == commits'[heads'[Op.at]]
                    B == commits[CHOOSE b \in MergeBases(commits, c.p[1], c.p[2]) : TRUE].t
                    X == commits[c.p[1]].t
                    Y == commits[c.p[2]].t IN
                /\ MergedTree(B, X, Y, c.t, ConflictsOf(B, X, Y))
                /\ ToldKnown(B, X, Y, ConflictsOf(B, X, Y))
                \* a change of one side only is never lost
                /\ \A f \in DOMAIN B \cup DOMAIN X \cup DOMAIN Y :
                     /\ FileOf(Y, f) = FileOf(B, f) => FileOf(c.t, f) = FileOf(X, f)
                     /\ FileOf(X, f) = FileOf(B, f) => FileOf(c.t, f) = FileOf(Y, f)]_vars
\* after a pull from each other two clones are the same
Converge == [][Step /\ Op.op = "pull" /\ Op.from \in Clones /\ Len(hist) > 0 /\ hist[Len(hist)].op = "pull"
                 /\ hist[Len(hist)].at = Op.from /\ hist[Len(hist)].from = Op.at => heads'[Op.at] = heads'[Op.from]]_vars

Emit == PrintT("CASE " \o ToJson([hist |-> hist']))
=============================================================================
