-------------------------------- MODULE MCTx --------------------------------
(* histories of operations of DBTransactions *)
EXTENDS IEMLTx, Json

CONSTANTS Pool, Depth
VARIABLES st, hist, ok
vars == <<st, hist, ok>>

O0 == [o |-> "", s |-> "", n |-> "", inh |-> <<>>, tr |-> <<>>, co |-> <<>>, c |-> "", flag |-> TRUE, map |-> <<>>]
V(x) == << <<"fr", x>>, <<"en", x>> >>
Create(s) == [O0 EXCEPT !.o = "create", !.s = s, !.tr = V("t"), !.inh = <<"opposed">>]
Add(s) == [O0 EXCEPT !.o = "add", !.s = s, !.tr = V("p")]
DelR(s, f) == [O0 EXCEPT !.o = "delroot", !.s = s, !.flag = f]
DelP(s) == [O0 EXCEPT !.o = "del", !.s = s]
Upd(s, n) == [O0 EXCEPT !.o = "update", !.s = s, !.n = n]
Desc(s, q) == [O0 EXCEPT !.o = "desc", !.s = s, !.c = "translations", !.tr = q]
Inh(s, q) == [O0 EXCEPT !.o = "inh", !.s = s, !.inh = q]
All(m) == [O0 EXCEPT !.o = "all", !.map = m]

PoolSmall == {Create("O:O:."), Create("U:M:."), Create("O:M:.+M:O:."), Add("U:O:."), Add("j."), DelR("O:O:.", TRUE), DelR("O:O:.", FALSE),
              DelP("U:O:."), Upd("U:O:.", "O:U:."), Upd("U:M:.", "O:M:."), Desc("a.", V("d")), Desc("O:O:.", V("e")), Inh("O:O:.", <<"twin">>)}
PoolLarge == PoolSmall \cup {Create("O:O:O:."), Desc("wo. wa.", V("w")), Desc("a.", <<>>), Inh("O:O:.", <<>>), All(<< <<"wo. wa.", "wo. wa. y.">> >>),
              Upd("O:O:.", "O:O:.+M:O:.")}

\* a root keeps at least a descriptor; a morpheme is moved to a place without files
Allowed(op) == op.o = "update" => \A f \in DOMAIN st : f[2] # op.n

Init == st = Empty /\ hist = <<>> /\ ok = TRUE
Next == /\ Len(hist) < Depth
        /\ \E op \in Pool : /\ Allowed(op)
                            /\ LET r == TLCEval(Apply(st, op)) IN st' = r.st /\ ok' = r.ok
                            /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_vars
View == <<st, Len(hist) < Depth>>

Step == hist' # hist
Op == hist'[Len(hist')]

\* the dictionary can always be built
Sound == ~StoreDict(st).err
\* an accepted root is in the dictionary with its tables, a deleted one is not, and the others are not touched
RootLaw == [][Step /\ ok' =>
  LET D == StoreDict(st)
      E == StoreDict(st') IN
  /\ Op.o = "create" => E.roots = D.roots \cup {Op.s} /\ \A t \in Range(MainTables(Parse(Op.s))) : InTables(E, t)
  /\ Op.o = "delroot" => E.roots = D.roots \ {Op.s}
  /\ Op.o = "update" => Cardinality(E.roots) = Cardinality(D.roots) /\ InTables(D, Op.s)
  /\ Op.o \in {"add", "del", "desc", "inh", "all"} => E.roots = D.roots
  /\ \A r \in D.roots \cap E.roots : Op.s # r /\ Op.o # "inh" => D.inh[r] = E.inh[r]]_vars
\* no descriptor of another morpheme is lost
DescLaw == [][Step /\ Op.o \in {"create", "add", "del", "update", "desc", "inh"} =>
  \A f \in DOMAIN st : f[1] = "desc" /\ f[2] \notin {Canon(Op.s), Op.n} => f \in DOMAIN st' /\ st'[f] = st[f]]_vars

Emit == PrintT("CASE " \o ToJson([hist |-> hist']))
=============================================================================
