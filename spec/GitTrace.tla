------------------------------ MODULE GitTrace ------------------------------
(***************************************************************************)
(* judges histories of databases under version control (C23, C24, C26).    *)
(* A step has: at (the clone), what was done, and what was observed after  *)
(* it: ok, heads (of every repository), new (commits), files (of the       *)
(* clone), clean (status is empty), state (0: no merge in progress).       *)
(***************************************************************************)
EXTENDS IEMLGit, Walk

Has(s, f) == f \in DOMAIN s
\* a list of [kind, ieml, path, rows] as a store
StoreOf(files) == TLCEval([k \in {<<f[1], f[2]>> : f \in Range(files)} |->
                    (CHOOSE f \in Range(files) : f[1] = k[1] /\ f[2] = k[2])[4]])

\* s0: the state before: commits, heads, work (of the clones), track (<<clone, remote>> -> commit)
NewCommits(cs, s) == TLCEval([c \in DOMAIN cs \cup {n.id : n \in Range(s.new)} |->
                       IF c \in DOMAIN cs THEN cs[c] ELSE
                         LET n == CHOOSE n \in Range(s.new) : n.id = c IN [p |-> n.p, t |-> StoreOf(n.files)]])

HeadOf(s) == s.heads[s.at]
\* the commit made by a step. The same commit made again at the same second (same parents, same content) is the same
\* object: then there is no new one
OneNew(s, parents, cs) == /\ \/ s.new = <<>>
                             \/ Len(s.new) = 1 /\ HeadOf(s) = s.new[1].id
                          /\ HeadOf(s) \in DOMAIN cs
                          /\ cs[HeadOf(s)].p = parents
NoNew(s) == s.new = <<>>

\* every step: the files of the clone, and the commits, are those of one USL each, well placed
WellFormed(s) ==
  << <<"a file of a USL", Len(s.files) = Cardinality(DOMAIN StoreOf(s.files)) /\ \A f \in Range(s.files) : f[1] \in {"desc", "ieml", "other"} >> >>

\* the other repositories do not change (but the one a push writes to)
OthersSame(s0, s, but) ==
  << <<"other repositories are not changed", \A r \in DOMAIN s0.heads : r \in {s.at, but} \/ s.heads[r] = s0.heads[r]>> >>

Unchanged(s0, s) == NoNew(s) /\ HeadOf(s) = s0.heads[s.at] /\ SameStore(StoreOf(s.files), s0.work[s.at])
AtCommit(s, c, cs) == HeadOf(s) = c /\ SameStore(StoreOf(s.files), cs[c].t)

TxnV(s0, s, cs) ==
  LET h == s0.heads[s.at]
      r == TLCEval(Txn(s0.work[s.at], s0.commits[h].t, s.edits, s.stop, s.sig))
  IN << <<"a transaction succeeds iff it starts clean and nothing fails", s.ok = r.ok>>,
        <<"a transaction that fails or changes nothing leaves no commit", ~r.commit => NoNew(s) /\ HeadOf(s) = h>>,
        <<"a transaction is one commit on top of the head", r.commit => OneNew(s, <<h>>, cs)>>,
        <<"the commit has all the edits of the transaction", r.commit /\ OneNew(s, <<h>>, cs) => SameStore(cs[HeadOf(s)].t, r.st)>>,
        <<"the files after a transaction", SameStore(StoreOf(s.files), r.st)>> >>

EditV(s0, s, cs) ==
  << <<"edits outside of a transaction are not committed", NoNew(s) /\ HeadOf(s) = s0.heads[s.at]>>,
     <<"edits outside of a transaction", SameStore(StoreOf(s.files), RunAll(s0.work[s.at], s.edits, 1))>> >>

ResetV(s0, s, cs) ==
  LET c == IF s.to = 0 THEN s0.heads[s.at] ELSE s.to IN
  << <<"reset gives exactly the files of the commit", s.ok /\ NoNew(s) /\ AtCommit(s, c, cs)>> >>

ToldV(s, X) ==
  << <<"local descriptors in conflict are returned", \A t \in Range(s.conflicts) :
        \A l \in Langs, c \in Classes :
          LET got == SelectSeq(t[2], LAMBDA v : v[1] = l /\ v[2] = c) IN
          SameBag(IF got = <<>> THEN <<>> ELSE got[1][3], Values(X, t[1], l, c))>> >>

PullTarget(s0, s) == IF s.away THEN s0.track[<<s.at, s.from>>] ELSE s0.heads[s.from]

PullOK(s0, s, cs) ==
  LET h == s0.heads[s.at]
      t == PullTarget(s0, s)
  IN IF IsPast(cs, t, h) THEN
          << <<"pull of what is already there changes nothing", s.ok /\ Unchanged(s0, s) /\ s.conflicts = <<>> >> >>
     ELSE IF IsPast(cs, h, t) THEN
          << <<"pull goes forward to the remote commit", s.ok /\ NoNew(s) /\ AtCommit(s, t, cs) /\ s.conflicts = <<>> >> >>
     ELSE IF ~s.ok \/ ~OneNew(s, <<h, t>>, cs) THEN << <<"pull merges with one commit on top of both heads", FALSE>> >>
     ELSE LET bases == MergeBases(cs, h, t)
              X == cs[h].t
              Y == cs[t].t
              Z == cs[HeadOf(s)].t
              told == {c[1] : c \in Range(s.conflicts)}
          IN << <<"the files are those of the merge", AtCommit(s, HeadOf(s), cs)>> >>
             \o (IF Cardinality(bases) # 1 THEN <<>>
                 ELSE LET B == cs[CHOOSE b \in bases : TRUE].t IN
                      << <<"merge keeps the changes of both sides, the remote file in case of conflict", MergedTree(B, X, Y, Z, told)>>,
                         <<"only files changed on both sides are in conflict", ToldKnown(B, X, Y, told)>> >>
                      \o ToldV(s, X))

PullV(s0, s, cs) ==
  IF PullTarget(s0, s) = 0 THEN << <<"pull from an unreachable remote fails and changes nothing", ~s.ok /\ Unchanged(s0, s)>> >>
  ELSE PullOK(s0, s, cs)

PushV(s0, s, cs) ==
  LET h == s0.heads[s.at]
      o == s0.heads[s.from]
      can == s.force \/ IsPast(cs, o, h)
  IN << <<"push only adds to the remote history, unless forced", s.ok = can>>,
        <<"the remote after a push", s.heads[s.from] = IF can THEN h ELSE o>>,
        <<"push does not change the clone", Unchanged(s0, s)>> >>

\* interrupted by a crash at some point then opened again: all or nothing
CrashV(s0, s, cs) ==
  LET h == s0.heads[s.at]
      before == NoNew(s) /\ AtCommit(s, h, cs)
  IN IF s.what = "txn" THEN
       LET r == TLCEval(Txn(s0.work[s.at], s0.commits[h].t, s.edits, -1, TRUE)) IN
       << <<"after a crash a transaction is done or not started",
            before \/ (r.commit /\ OneNew(s, <<h>>, cs) /\ AtCommit(s, HeadOf(s), cs) /\ SameStore(cs[HeadOf(s)].t, r.st))>> >>
     ELSE IF s.what = "reset" THEN
       << <<"after a crash a reset is done or not started", before \/ (NoNew(s) /\ AtCommit(s, s.to, cs))>> >>
     ELSE \* pull
       LET t == s0.heads[s.from]
           done == PullOK(s0, [s EXCEPT !.ok = TRUE], cs) IN
       << <<"after a crash a pull is done or not started", before \/ \A k \in DOMAIN done : done[k][2] \/ done[k][1] = "merge keeps the changes of both sides, the remote file in case of conflict">> >>

DiffV(s0, s, cs) ==
  LET O == cs[s.c0].t
      N == cs[s.c1].t
      differ == {f \in DOMAIN O \cup DOMAIN N : FileOf(O, f) # FileOf(N, f)}
      rows(st, f) == IF f \in DOMAIN st THEN st[f] ELSE <<>>
      shown == {f \in differ : rows(O, f) # rows(N, f)}
      key(d) == <<d.kind, d.ieml>>
  IN << <<"the files of a difference", {key(d) : d \in Range(s.diff)} = shown /\ Len(s.diff) = Cardinality(shown)>>,
        <<"the rows of a difference", \A d \in Range(s.diff) : key(d) \in shown =>
            \A r \in Range(d.added) \cup Range(d.deleted) \cup Range(rows(O, key(d))) \cup Range(rows(N, key(d))) :
               Count(rows(O, key(d)), r) + Count(d.added, r) = Count(rows(N, key(d)), r) + Count(d.deleted, r)
               /\ Count(d.added, r) <= Count(rows(N, key(d)), r)>>,
        <<"new and removed files of a difference", \A d \in Range(s.diff) : key(d) \in shown =>
            d.new = (key(d) \notin DOMAIN O) /\ d.gone = (key(d) \notin DOMAIN N)>>,
        <<"a difference changes nothing", Unchanged(s0, s)>> >>

LookV(s0, s, cs) ==
  << <<"nothing changes by itself", Unchanged(s0, s)>>,
     <<"version of the database", s.branch = "master" /\ s.version = HeadOf(s)>> >>

StepV(s0, s, cs) ==
  WellFormed(s)
  \o OthersSame(s0, s, IF s.op = "push" THEN s.from ELSE "")
  \o << <<"status tells whether the files are those of the head", HeadOf(s) \in DOMAIN cs => (s.clean = (StoreOf(s.files) = cs[HeadOf(s)].t))>>,
        <<"no merge is left unfinished", s.state = 0>>,
        <<"the private files are kept and never committed", s.dot>> >>
  \o (CASE s.op = "txn" -> TxnV(s0, s, cs)
        [] s.op = "edit" -> EditV(s0, s, cs)
        [] s.op = "reset" -> ResetV(s0, s, cs)
        [] s.op = "pull" -> PullV(s0, s, cs)
        [] s.op = "push" -> PushV(s0, s, cs)
        [] s.op = "crash" -> CrashV(s0, s, cs)
        [] s.op = "diff" -> DiffV(s0, s, cs)
        [] s.op = "look" -> LookV(s0, s, cs))

After(s0, s, cs) ==
  [commits |-> cs, heads |-> s.heads,
   work |-> [s0.work EXCEPT ![s.at] = StoreOf(s.files)],
   track |-> IF s.op = "pull" /\ ~s.away THEN [s0.track EXCEPT ![<<s.at, s.from>>] = s.heads[s.from]] ELSE
             IF s.op = "crash" /\ s.what = "pull" THEN [s0.track EXCEPT ![<<s.at, s.from>>] = s.heads[s.from]] ELSE
             IF s.op = "push" /\ s.ok THEN [s0.track EXCEPT ![<<s.at, s.from>>] = s.heads[s.from]] ELSE s0.track]

RECURSIVE GFold(_, _, _)
GFold(steps, k, s0) ==
  IF k > Len(steps) THEN {}
  ELSE IF Has(steps[k], "unread") THEN {"the step is answered"}
  ELSE LET s == steps[k]
           cs == NewCommits(s0.commits, s)
       IN Failing(StepV(s0, s, cs)) \cup GFold(steps, k + 1, TLCEval(After(s0, s, cs)))

\* e.repos: the repositories ("O" is the origin, without files); e.start: the first commit, common to all
Start(e) == [commits |-> (e.start :> [p |-> <<>>, t |-> Empty]),
             heads |-> [r \in Range(e.repos) |-> e.start],
             work |-> [r \in Range(e.repos) |-> Empty],
             track |-> [p \in Range(e.repos) \X Range(e.repos) |-> IF p[2] = "O" THEN e.start ELSE 0]]
GitVerdict(e) == GFold(e.steps, 1, TLCEval(Start(e)))
=============================================================================
