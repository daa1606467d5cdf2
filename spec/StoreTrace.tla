----------------------------- MODULE StoreTrace -----------------------------
(* judges histories of a database (properties C19..C22): every step has the edit and what was read after it *)
EXTENDS IEMLStore, Walk

Has(s, f) == f \in DOMAIN s

\* the store written on the disk: list of [kind, ieml, path, rows]
FilesV(s, st) ==
  << <<"the files are those of the USLs", {<<f[1], f[2]>> : f \in Range(s.files)} = DOMAIN st /\ Len(s.files) = Cardinality(DOMAIN st)>>,
     <<"place of the files", \A f \in Range(s.files) : <<f[1], f[2]>> \in DOMAIN st => f[3] = PathOf(<<f[1], f[2]>>)>>,
     <<"content of the files", \A f \in Range(s.files) : <<f[1], f[2]>> \in DOMAIN st =>
          SameBag([k \in DOMAIN f[4] |-> f[4][k]], st[<<f[1], f[2]>>])>> >>

\* the values, by key: list of [ieml, language, class, values] without the empty ones, for the USLs of s.ask
ValsV(s, st) ==
  LET exp == {<<i, l, c>> \in Range(s.ask) \X Langs \X Classes : Values(st, i, l, c) # <<>>} IN
  << <<"keys with values", {<<r[1], r[2], r[3]>> : r \in Range(s.vals)} = exp /\ Len(s.vals) = Cardinality(exp)>>,
     <<"values of a key", \A r \in Range(s.vals) : SameBag(r[4], Values(st, r[1], r[2], r[3]))>> >>

\* get_values_partial(ieml, l, c) : [ieml, l, c, list of [ieml, l, c, values]]
PartV(s, st) ==
  << <<"values of a partial key", \A q \in Range(s.part) :
        LET exp == {<<q[1], l, c>> : <<l, c>> \in {x \in Langs \X Classes :
                      /\ q[2] \in {"", x[1]} /\ q[3] \in {"", x[2]} /\ Values(st, q[1], x[1], x[2]) # <<>>}} IN
        /\ {<<r[1], r[2], r[3]>> : r \in Range(q[4])} = exp
        /\ \A r \in Range(q[4]) : SameBag(r[4], Values(st, r[1], r[2], r[3]))>> >>

\* get_descriptor(ieml): every class and language
FullV(s, st) ==
  << <<"descriptor of a USL", \A q \in Range(s.full) :
        /\ {<<r[1], r[2]>> : r \in Range(q[2])} = Langs \X Classes
        /\ \A r \in Range(q[2]) : SameBag(r[3], Values(st, q[1], r[1], r[2]))>> >>

\* get_descriptors(files_list): [names of the files without their extension (USLs), list of [ieml, l, c, values]]
OnlyV(s, st) ==
  << <<"descriptors of some files", \A q \in Range(s.only) :
        LET exp == {<<i, l, c>> \in Range(q[1]) \X Langs \X Classes : Values(st, i, l, c) # <<>>} IN
        /\ {<<r[1], r[2], r[3]>> : r \in Range(q[2])} = exp /\ Len(q[2]) = Cardinality(exp)
        /\ \A r \in Range(q[2]) : SameBag(r[4], Values(st, r[1], r[2], r[3]))>> >>

\* structure: [ieml, key, values] and partial ones
SValsV(s, st) ==
  << <<"values of the structure", \A r \in Range(s.svals) : SameBag(r[3], SValues(st, r[1], r[2]))>>,
     <<"structure of a USL", \A q \in Range(s.spart) :
        LET exp == {k \in Keys : q[2] \in {"", k} /\ SValues(st, q[1], k) # <<>>} IN
        /\ {r[2] : r \in Range(q[3])} = exp
        /\ \A r \in Range(q[3]) : r[1] = q[1] /\ SameBag(r[3], SValues(st, r[1], r[2]))>> >>

\* list(type, paradigm): [type, paradigm, texts]
ListV(s, st) ==
  << <<"list of the USLs", \A q \in Range(s.lists) :
        Range(q[3]) = ListOf(st, q[1], q[2]) /\ Len(q[3]) = Cardinality(Range(q[3]))>> >>

\* list(parse=True): [type, paradigm, texts, types]: those that the dictionary of the store knows, as units
ParsedV(s, st) ==
  LET D == StoreDict(st)
      L == s.parsed IN
  IF D.err THEN << <<"overlapping roots are refused", ~L.ok>> >>
  ELSE IF ~L.ok THEN << <<"the units are listed", FALSE>> >>
  ELSE << <<"list of the units", \A q \in Range(L.rows) :
            LET exp == {i \in ListOf(st, q[1], q[2]) : \A m \in About(i).m : InDict(D, m)} IN
            Range(q[3]) = exp /\ Len(q[3]) = Cardinality(exp)>>,
          <<"types of the units", \A q \in Range(L.rows) : q[4] = [k \in DOMAIN q[3] |-> About(q[3][k]).type]>> >>

\* path_of(unit): [ieml, kind, path]
PathsV(s, st) == << <<"place of the file of a USL", \A q \in Range(s.paths) : q[3] = PathOf(<<q[2], q[1]>>)>> >>

\* get_dictionary
DictV(s, st) ==
  LET D == StoreDict(st)
      d == s.dict IN
  IF D.err THEN << <<"overlapping roots are refused", ~d.ok>> >>
  ELSE IF ~d.ok THEN << <<"the dictionary is built", FALSE>> >>
  ELSE << <<"content of the dictionary of the database", d.scripts = StrS(D.scripts)>>,
          <<"roots of the dictionary of the database", Range(d.roots) = D.roots>>,
          <<"ranks in the dictionary of the database", d.scripts = StrS(D.scripts) => d.ranks = [k \in DOMAIN D.scripts |-> D.ranks[D.scripts[k].s]]>>,
          <<"relations of the dictionary of the database", d.scripts = StrS(D.scripts) =>
              {<<p[1], p[2]>> : p \in Range(d.opposed)} = SiblingRel(D, "opposed", Opposed)>> >>

\* get_list: [ieml, type, paradigm, cardinality, list of [class, language, values]]
EntriesV(s, st) ==
  LET D == StoreDict(st)
      L == s.list IN
  IF D.err THEN << <<"overlapping roots are refused", ~L.ok>> >>
  ELSE IF ~L.ok THEN << <<"the list is built", FALSE>> >>
  ELSE
   LET exp == Entries(st, D) IN
   << <<"entries of the list", {r[1] : r \in Range(L.rows)} = exp /\ Len(L.rows) = Cardinality(exp)>>,
      <<"type of an entry", \A r \in Range(L.rows) : r[1] \in exp => r[2] = About(r[1]).type>>,
      <<"paradigm of an entry", \A r \in Range(L.rows) : r[1] \in exp => r[3] = About(r[1]).par>>,
      <<"cardinality of an entry", \A r \in Range(L.rows) : r[1] \in exp =>
           r[4] = IF ~About(r[1]).par THEN "singular_sequence" ELSE IF r[1] \in D.roots THEN "root_paradigm" ELSE "paradigm">>,
      <<"descriptors of an entry", \A r \in Range(L.rows) : r[1] \in exp =>
           \A x \in Range(r[5]) : SameBag(x[3], Values(st, r[1], x[2], x[1]))>>,
      <<"all the descriptors of an entry", \A r \in Range(L.rows) : r[1] \in exp =>
           \A l \in Langs, c \in Classes : Values(st, r[1], l, c) # <<>> => \E x \in Range(r[5]) : x[1] = c /\ x[2] = l>>,
      <<"class of an entry", \A r \in Range(L.rows) : r[1] \in exp => r[6] = ClassName(r[1])>>,
      <<"order of the entries: by type, the morphemes as in the dictionary", \A a, b \in DOMAIN L.rows :
           (a < b /\ L.rows[a][1] \in exp /\ L.rows[b][1] \in exp) =>
              LET ta == TypeRank(About(L.rows[a][1]).type)
                  tb == TypeRank(About(L.rows[b][1]).type) IN
              \/ ta < tb
              \/ ta = tb /\ (ta = 0 => Lt(Parse(L.rows[a][1]), Parse(L.rows[b][1])))>> >>

StepV(s, r) ==
  << <<"an invalid edit is refused and a valid one accepted: " \o s.a, s.ok = r.ok>>,
     <<"the database can be read", ~Has(s, "unread")>> >>
  \o (IF Has(s, "files") THEN FilesV(s, r.st) ELSE <<>>)
  \o (IF Has(s, "vals") THEN ValsV(s, r.st) ELSE <<>>)
  \o (IF Has(s, "part") THEN PartV(s, r.st) ELSE <<>>)
  \o (IF Has(s, "full") THEN FullV(s, r.st) ELSE <<>>)
  \o (IF Has(s, "only") THEN OnlyV(s, r.st) ELSE <<>>)
  \o (IF Has(s, "parsed") THEN ParsedV(s, r.st) ELSE <<>>)
  \o (IF Has(s, "paths") THEN PathsV(s, r.st) ELSE <<>>)
  \o (IF Has(s, "svals") THEN SValsV(s, r.st) ELSE <<>>)
  \o (IF Has(s, "lists") THEN ListV(s, r.st) ELSE <<>>)
  \o (IF Has(s, "dict") THEN DictV(s, r.st) ELSE <<>>)
  \o (IF Has(s, "list") THEN EntriesV(s, r.st) ELSE <<>>)

\* "look" and "spoil" (a damaged cache) edit nothing
Outcome(st, s) == IF s.a \in {"look", "spoil"} THEN Done(st) ELSE Edit(st, s)

RECURSIVE Fold(_, _, _)
Fold(steps, k, st) ==
  IF k > Len(steps) THEN {}
  ELSE LET r == TLCEval(Outcome(st, steps[k])) IN
       Failing(StepV(steps[k], r)) \cup Fold(steps, k + 1, r.st)

StoreVerdict(e) == Fold(e.steps, 1, Empty)
=============================================================================
