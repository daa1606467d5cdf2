---------------------------- MODULE ScriptTrace ----------------------------
(* judges the observations made on the morphemes (properties C01..C06) *)
EXTENDS IEMLTables, Walk

\* op "parse": the text e.in was given to the parser
ParseV(e) ==
  LET x == Parse(e.in) IN
  IF IsErr(x) THEN Failing(<< <<"an invalid text or a too big paradigm is refused", ~e.ok>> >>)
  ELSE IF ~e.ok THEN {"a valid text is accepted"}
  ELSE Failing(<< <<"canonical writing", e.out = x.s>>,
                  <<"the canonical writing is a fixed point", e.again = x.s>>,
                  <<"layer", e.layer = x.l>>,
                  <<"equal and same hash as the canonical one", e.eq>> >>)

\* op "build": the script was built with the operators from scripts
BuildV(e) ==
  LET args == [i \in DOMAIN e.args |-> Parse(e.args[i])]
      top == Max3({args[i].l : i \in DOMAIN args})
      x == IF e.how = "add" THEN MkAdd(Range(args))
           ELSE IF e.how = "sum" THEN MkAdd({Promote(args[i], top) : i \in DOMAIN args})
           ELSE MkMul([i \in 1..3 |-> IF i <= Len(args) THEN args[i] ELSE Null(args[1].l)])
  IN IF IsErr(x) THEN Failing(<< <<"an invalid combination is refused", ~e.ok>> >>)
     ELSE IF ~e.ok THEN {"a valid combination is accepted"}
     ELSE Failing(<< <<"canonical writing of a combination", e.out = x.s>>,
                     <<"the arguments are not modified", e.after = e.args>> >>)

\* op "ss": singular sequences
SSV(e) ==
  LET x == Parse(e.in) IN
  IF ~e.ok THEN (IF IsErr(x) THEN {} ELSE {"a valid text is accepted"})
  ELSE IF IsErr(x) THEN {"an invalid text or a too big paradigm is refused"}
  ELSE LET q == SSeq(x) IN
       Failing(<< <<"cardinal", e.card = x.n>>,
                  <<"length", e.len = x.n>>,
                  <<"singular sequences in canonical order", e.ss = StrS(q)>>,
                  <<"no duplicate", Len(e.ss) = Cardinality(Range(e.ss))>>,
                  <<"set of singular sequences", Range(e.set) = SSet(x)>>,
                  <<"is_singular", e.sing = (x.n = 1)>>,
                  <<"a singular sequence is its own singular sequence", e.self>> >>)

\* op "in": containment of e.b in e.a
InV(e) == LET a == Parse(e.a)
              b == Parse(e.b)
          IN Failing(<< <<"containment", e.res = Includes(a, b)>> >>)

\* op "lt": order of a list of scripts: e.m[i][j] = (items[i] < items[j]), e.sorted = the sorted list
LtV(e) ==
  LET X == [i \in DOMAIN e.items |-> Parse(e.items[i])]
      J == DOMAIN X
  IN Failing(<< <<"order", \A i \in J, j \in J : e.m[i][j] = Lt(X[i], X[j])>>,
                <<"irreflexive", \A i \in J, j \in J : X[i].s = X[j].s => ~e.m[i][j]>>,
                <<"total", \A i \in J, j \in J : X[i].s # X[j].s => (e.m[i][j] # e.m[j][i])>>,
                <<"transitive", \A i \in J, j \in J, k \in J : e.m[i][j] /\ e.m[j][k] => e.m[i][k]>>,
                <<"sorting does not depend on the initial order", e.sorted1 = e.sorted2>>,
                <<"sorted list", e.sorted1 = StrS(SortSeq(X, Lt))>> >>)

\* op "fact": factorisation of a list of scripts
FactV(e) ==
  LET X == [i \in DOMAIN e.args |-> Parse(e.args[i])]
      l == Max3({X[i].l : i \in DOMAIN X})
      S == UNION {{Promote(z, l).s : z \in Range(SSeq(X[i]))} : i \in DOMAIN X}
      r == Parse(e.out)
  IN IF Cardinality(S) > MaxSS THEN {}
     ELSE IF ~e.ok THEN {"factorisation succeeds"}
     ELSE Failing(<< <<"the result is a canonical morpheme", ~IsErr(r) /\ r.s = e.out>>,
                     <<"same singular sequences", ~IsErr(r) => SSet(r) = S>>,
                     <<"a product is written as a product of disjoint addends", ~IsErr(r) => WellFactored(r)>>,
                     <<"depends only on the set of singular sequences", e.out2 = e.out /\ e.out3 = e.out>>,
                     <<"idempotent", e.again = e.out>> >>)

\* op "tab": tables
TabV(e) ==
  LET x == Parse(e.in)
      T == Tab(x)
  IN IF T.err THEN Failing(<< <<"too many headers are refused", ~e.ok>> >>)
     ELSE IF ~e.ok THEN {"the tables are computed"}
     ELSE Failing(<< <<"cells", e.cells = CellsText(T)>>,
                     <<"scripts of the tables", e.ts = StrS(T.ts)>>,
                     <<"headers", e.hd = HeadText(T)>>,
                     <<"every singular sequence is in a cell", CellSet(T) = SSet(x)>> >>)

\* op "class"
ClassV(e) == LET x == Parse(e.in) IN
             IF IsErr(x) \/ ~e.ok THEN (IF IsErr(x) = ~e.ok THEN {} ELSE {"accepted"})
             ELSE LET q == SSeq(x) IN
                  Failing(<< <<"grammatical class", e.cls = x.g>>,
                             <<"empty", e.empty = IsEmpty(x)>>,
                             <<"class of the singular sequences", e.sscls = [i \in DOMAIN q |-> q[i].g]>> >>)

ScriptVerdict(e) ==
  CASE e.op = "parse" -> ParseV(e)
    [] e.op = "build" -> BuildV(e)
    [] e.op = "ss" -> SSV(e)
    [] e.op = "in" -> InV(e)
    [] e.op = "lt" -> LtV(e)
    [] e.op = "fact" -> FactV(e)
    [] e.op = "tab" -> TabV(e)
    [] e.op = "class" -> ClassV(e)
=============================================================================
