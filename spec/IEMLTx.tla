------------------------------- MODULE IEMLTx -------------------------------
(***************************************************************************)
(* The edits of the dictionary and of the descriptors that are offered to  *)
(* the users (DBTransactions), as functions on stores. An operation that   *)
(* is refused changes nothing.                                             *)
(*   op.o   : the operation                                                *)
(*   op.s   : the morpheme (canonical text) or USL; op.n: the new one      *)
(*   op.inh : inhibitions; op.tr, op.co: translations and comments, as     *)
(*            sequences of <<language, value>>; op.c: a class of           *)
(*            descriptors; op.flag; op.map: sequence of <<old, new>> USLs  *)
(***************************************************************************)
EXTENDS IEMLStore

Row0 == [a |-> "", i |-> "", l |-> "", c |-> "", k |-> "", v |-> "", hv |-> FALSE]
AddRow(i, l, c, v) == [Row0 EXCEPT !.a = "add", !.i = i, !.l = l, !.c = c, !.v = v, !.hv = TRUE]
DelRows(i) == [Row0 EXCEPT !.a = "rem", !.i = i]
AddS(i, k, v) == [Row0 EXCEPT !.a = "sadd", !.i = i, !.k = k, !.v = v, !.hv = TRUE]
DelS(i) == [Row0 EXCEPT !.a = "srem", !.i = i]
DelKey(i, k) == [Row0 EXCEPT !.a = "srem", !.i = i, !.k = k]

RECURSIVE Do(_, _, _)
Do(st, edits, k) == IF k > Len(edits) THEN st ELSE Do(TLCEval(Edit(st, edits[k])).st, edits, k + 1)

Descs(i, c, q) == [k \in DOMAIN q |-> AddRow(i, q[k][1], c, q[k][2])]
WithIndex(q, n) == [k \in DOMAIN q |-> <<q[k][1], q[k][2] \o ToString(n)>>]

Out(ok, st, n) == [ok |-> ok, st |-> st, n |-> n, ret |-> TRUE]
No(st) == Out(FALSE, st, 0)

HasDesc(st, i) == RowsOf(st, <<"desc", i>>) # <<>>
InTables(D, t) == \E x \in Range(D.scripts) : x.s = t
RootsOver(D, S) == {D.rootof[t] : t \in {u \in S : InTables(D, u)}}

\* the tables of a root other than itself
MainTables(x) == SelectSeq(StrS(Tab(x).ts), LAMBDA t : t # x.s)

AddPar(st, s, tr, co) ==
  LET x == Parse(s)
      D == StoreDict(st)
  IN IF x.n = 1 \/ InTables(D, s) \/ (\E t \in SSet(x) : ~InTables(D, t)) \/ Cardinality(RootsOver(D, SSet(x))) # 1
     THEN No(st)
     ELSE Out(TRUE, Do(st, <<DelRows(s), DelS(s), AddS(s, "is_root", "bool:False")>> \o Descs(s, "translations", tr) \o Descs(s, "comments", co), 1), 1)

RECURSIVE AddTables(_, _, _, _, _)
AddTables(st, ts, k, tr, co) ==
  IF k > Len(ts) THEN st
  ELSE LET r == TLCEval(AddPar(st, ts[k], WithIndex(tr, k - 1), WithIndex(co, k - 1))) IN AddTables(r.st, ts, k + 1, tr, co)

CreateRoot(st, op) ==
  LET x == Parse(op.s)
      D == StoreDict(st)
  IN IF x.n = 1 \/ Tab(x).err THEN No(st)
     ELSE LET main == MainTables(x) IN
     IF \/ HasDesc(st, op.s) \/ \E t \in Range(main) : HasDesc(st, t)
        \/ \E t \in SSet(x) : InTables(D, t)
        \/ \E k \in DOMAIN op.inh : op.inh[k] \notin Inhibitable
     THEN No(st)
     ELSE LET s1 == Do(st, <<DelKey(op.s, "is_root"), AddS(op.s, "is_root", "bool:True")>>
                           \o [k \in DOMAIN op.inh |-> AddS(op.s, "inhibition", op.inh[k])]
                           \o Descs(op.s, "translations", op.tr) \o Descs(op.s, "comments", op.co), 1)
          IN Out(TRUE, AddTables(s1, main, 1, op.tr, op.co), 1 + Len(main))

DeleteRoot(st, op) ==
  LET D == StoreDict(st)
      under == SelectSeq(StrS(D.scripts), LAMBDA t : D.rootof[t] = op.s)
  IN IF op.s \notin D.roots THEN No(st)
     ELSE Out(TRUE, Do(st, <<DelS(op.s)>> \o (IF op.flag THEN [k \in DOMAIN under |-> DelRows(under[k])] ELSE <<>>), 1), 1)

\* a paradigm of the dictionary that is not a root
DeletePar(st, op) ==
  LET D == StoreDict(st) IN
  IF ~InTables(D, op.s) \/ Parse(op.s).n = 1 THEN No(st)
  ELSE Out(TRUE, Do(st, <<DelS(op.s), DelRows(op.s)>>, 1), 1)

UpdatePar(st, op) ==
  LET D == StoreDict(st)
      old == Parse(op.s)
      new == Parse(op.n)
      isroot == op.s \in D.roots
      drows == RowsOf(st, <<"desc", op.s>>)
      srows == RowsOf(st, <<"ieml", op.s>>)
      moved == [k \in DOMAIN drows |-> AddRow(op.n, drows[k][1], drows[k][2], drows[k][3])]
      told == [k \in DOMAIN drows |-> AddRow(op.s, drows[k][1], drows[k][2], "(translation migrated to " \o op.n \o ") " \o drows[k][3])]
  IN IF op.s = op.n THEN Out(TRUE, st, 0)
     ELSE IF \/ ~InTables(D, op.s) \/ InTables(D, op.n)
             \/ (~isroot /\ \E t \in SSet(new) : ~InTables(D, t))
             \/ Cardinality(RootsOver(D, SSet(new))) # 1
             \/ (isroot /\ ~Includes(new, old))
             \/ (isroot /\ Tab(new).err)
     THEN No(st)
     ELSE IF isroot
     THEN Out(TRUE, Do(st, <<DelS(op.s), AddS(op.s, "is_root", "False")>>
                           \o [k \in DOMAIN srows |-> AddS(op.n, srows[k][1], srows[k][2])]
                           \o <<DelRows(op.s)>> \o moved \o told, 1), 1)
     ELSE Out(TRUE, Do(st, <<DelS(op.s), AddS(op.n, "is_root", "False"), DelRows(op.s)>> \o moved, 1), 1)

ValuesOf(q, l) == LET r == SelectSeq(q, LAMBDA x : x[1] = l) IN [k \in DOMAIN r |-> r[k][2]]
SetDesc(st, op) ==
  LET i == Canon(op.s)
      keep == SelectSeq(RowsOf(st, <<"desc", i>>), LAMBDA r : r[2] # op.c)
  IN IF op.c \notin Classes THEN No(st)
     ELSE IF \A l \in Langs : SameBag(ValuesOf(op.tr, l), Values(st, i, l, op.c)) THEN [Out(TRUE, st, 0) EXCEPT !.ret = FALSE]
     ELSE IF keep = <<>> /\ op.tr = <<>> THEN Out(TRUE, Do(st, <<DelRows(i)>>, 1), 1)
     ELSE LET s1 == IF <<"desc", i>> \in DOMAIN st THEN SetFile(st, <<"desc", i>>, keep) ELSE st IN
          Out(TRUE, Do(s1, Descs(i, op.c, op.tr), 1), 1)

SetInh(st, op) ==
  LET D == StoreDict(st)
      old == SValues(st, op.s, "inhibition")
      rest == SelectSeq(RowsOf(st, <<"ieml", op.s>>), LAMBDA r : r[1] # "inhibition" \/ r[2] \in Range(op.inh))
      add == SelectSeq(op.inh, LAMBDA v : v \notin Range(old))
  IN IF op.s \notin D.roots \/ \E k \in DOMAIN op.inh : op.inh[k] \notin Inhibitable THEN No(st)
     ELSE IF Range(old) = Range(op.inh) THEN Out(TRUE, st, 0)
     ELSE Out(TRUE, Do(SetFile(st, <<"ieml", op.s>>, rest), [k \in DOMAIN add |-> AddS(op.s, "inhibition", add[k])], 1), 1)

\* every USL of the database made of morphemes of the dictionary is replaced by its image
Image(op, i) == IF \E k \in DOMAIN op.map : op.map[k][1] = i
                THEN Canon(op.map[CHOOSE k \in DOMAIN op.map : op.map[k][1] = i][2]) ELSE i
UpdateAll(st, op) ==
  LET D == StoreDict(st)
      src == Entries(st, D)
      cleared == TLCEval([f \in {g \in DOMAIN st : ~(g[1] = "desc" /\ g[2] \in src)} |-> st[f]])
      q == SetToSeq(src)
      adds == CatAll([k \in DOMAIN q |-> LET r == st[<<"desc", q[k]>>] IN [j \in DOMAIN r |-> AddRow(Image(op, q[k]), r[j][1], r[j][2], r[j][3])]])
  IN Out(TRUE, Do(cleared, adds, 1), -1)

Apply(st, op) == CASE op.o = "create" -> CreateRoot(st, op)
                   [] op.o = "add" -> AddPar(st, op.s, op.tr, op.co)
                   [] op.o = "delroot" -> DeleteRoot(st, op)
                   [] op.o = "del" -> DeletePar(st, op)
                   [] op.o = "update" -> UpdatePar(st, op)
                   [] op.o = "desc" -> SetDesc(st, op)
                   [] op.o = "inh" -> SetInh(st, op)
                   [] op.o = "all" -> UpdateAll(st, op)
=============================================================================
