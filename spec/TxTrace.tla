------------------------------ MODULE TxTrace ------------------------------
(* judges histories of operations of DBTransactions (C25) *)
EXTENDS IEMLTx, Walk

Has(s, f) == f \in DOMAIN s
StoreOf(files) == TLCEval([k \in {<<f[1], f[2]>> : f \in Range(files)} |->
                    (CHOOSE f \in Range(files) : f[1] = k[1] /\ f[2] = k[2])[4]])

DictV(d, st) ==
  LET D == StoreDict(st) IN
  IF D.err THEN << <<"the dictionary is refused", ~d.ok>> >>
  ELSE IF ~d.ok THEN << <<"the dictionary can be built", FALSE>> >>
  ELSE << <<"the dictionary after the operations", d.scripts = StrS(D.scripts) /\ Range(d.roots) = D.roots>> >>

\* a step "raw" is a list of edits in a transaction, "dirty" edits that are not committed (then every operation is
\* refused until a "reset")
Outcome(st, s, dirty) ==
  IF s.o \in {"raw", "dirty"} THEN [Out(TRUE, Do(st, s.edits, 1), -1) EXCEPT !.ret = TRUE]
  ELSE IF s.o = "look" THEN Out(TRUE, st, 0)
  ELSE LET r == Apply(st, s) IN
       \* nothing to do is not refused
       IF dirty /\ r.n # 0 THEN No(st) ELSE r

StepV(s, r, dirty) ==
  << <<"an operation is accepted iff it is meaningful: " \o s.o, s.ok = r.ok>>,
     <<"effect of the operation on the files: " \o s.o, SameStore(StoreOf(s.files), r.st) /\ Len(s.files) = Cardinality(DOMAIN StoreOf(s.files))>>,
     <<"the operations are committed", s.clean = (s.o = "dirty" \/ dirty => StoreOf(s.files) = StoreOf(s.tree))>>,
     <<"number of commits", s.o # "dirty" => IF r.n = -1 THEN s.new <= 1 ELSE s.new = r.n>>,
     <<"set_descriptors tells whether it changed something", s.o = "desc" /\ s.ok => s.ret = r.ret>> >>
  \o (IF Has(s, "dict") THEN DictV(s.dict, r.st) ELSE <<>>)

\* dirty: there may be edits that are not committed
RECURSIVE TFold(_, _, _, _)
TFold(steps, k, st, dirty) ==
  IF k > Len(steps) THEN {}
  ELSE LET s == steps[k]
           r == IF s.o = "reset" THEN Out(TRUE, StoreOf(s.tree), 0) ELSE TLCEval(Outcome(st, s, dirty))
           d == StoreOf(s.files) # StoreOf(s.tree)
       IN Failing(StepV(s, r, dirty)) \cup TFold(steps, k + 1, TLCEval(r.st), d)

TxVerdict(e) == TFold(e.steps, 1, Empty, FALSE)
=============================================================================
