------------------------------ MODULE PathTrace ------------------------------
(* judges the observations made on the paths (C15) *)
EXTENDS IEMLPath, Walk

\* op "path": a text of path was read; out "refused" if it is refused with CannotParse
PathV(e) ==
  LET q == PParse(e.in) IN
  IF q.u THEN Failing(<< <<"a path is read or refused with CannotParse", e.ok \/ e.out = "refused">> >>)
  ELSE IF ~q.ok THEN Failing(<< <<"a text that is not a path is refused with CannotParse", ~e.ok /\ e.out = "refused">> >>)
  ELSE Failing(<< <<"canonical writing of a path", e.ok /\ e.out = PathText(q)>>,
                  <<"the writing reads back as an equal path", e.again>>,
                  <<"a path is its end after its beginning", e.joined = e.out>>,
                  <<"the path among the constants", e.const = PathText(AsConstant(q)) /\ e.isc = IsConstantPath(q)>>,
                  <<"the path without its morpheme", e.wm = WithoutMorpheme(q)>> >>)

\* op "paths": the paths of a unit
PathsV(e) ==
  LET u == UParse(e.in) IN
  IF ~IsUsl(u) \/ ~HasPaths(u) THEN {}
  ELSE LET A == TLCEval({<<PathText(z[1]), z[2]>> : z \in UPaths(u, FALSE)})
           B == TLCEval({<<PathText(z[1]), z[2]>> : z \in UPaths(u, TRUE)})
           all == {<<e.all[i][1], e.all[i][2]>> : i \in DOMAIN e.all}
           ss == {<<e.ss[i][1], e.ss[i][2]>> : i \in DOMAIN e.ss}
       IN Failing(<< <<"the paths of a unit lead to its components", e.ok /\ all = A>>,
                     <<"each path once", Len(e.all) = Cardinality(all) \/ ~UCheck(u)>>,
                     <<"the paths to the morphemes", e.ok /\ ss = B>>,
                     <<"following the path, read from its writing, leads to the component", e.follow>>,
                     <<"the unit is not modified", e.after = u.s>> >>)

\* op "deref": a path (its text) is followed in a unit
DerefV(e) ==
  LET u == UParse(e.in)
      q == PParse(e.path)
  IN IF ~IsUsl(u) \/ q.u \/ ~q.ok THEN {}
     ELSE LET x == Deref(q, u) IN
          IF x = "?" THEN {}
          ELSE Failing(<< <<"what a path leads to", e.out = x>>,
                          <<"contained", e.contained = (x # "refused")>> >>)

\* op "compose": a unit is made of values at paths, given in any order
ComposeV(e) ==
  LET S == TLCEval({<<PParse(e.pairs[i][1]), e.pairs[i][2]>> : i \in DOMAIN e.pairs}) IN
  \* a multiplicity of 0 is not specified
  IF S = {} \/ (\E z \in S : z[1].u \/ ~z[1].ok \/ z[1].m = "" \/ (z[1].g >= 0 /\ z[1].n = 0)) THEN {}
  ELSE LET x == Compose(S)
           u == UParse(e.in)
       IN Failing(<< <<"the unit that is made of values at paths", e.out = (IF x.k = "X" THEN "refused" ELSE x.s)>>,
                     <<"the unit made of the morphemes at its paths is the unit itself",
                       (e.full /\ IsUsl(u) /\ IsComposed(u) /\ UCheck(u)) => e.out = u.s>> >>)

\* op "prefix"
PrefixV(e) ==
  LET q == PParse(e.a)
      p == PParse(e.b)
  IN IF q.u \/ p.u \/ ~q.ok \/ ~p.ok THEN {} ELSE Failing(<< <<"prefix of a path", e.res = HasPrefix(q, p)>>,
                                                                            <<"what follows a prefix", e.rest = AfterPrefix(q, p)>>,
                  <<"a prefix and what follows it make the path", e.rest # "" => e.back = PathText(q)>> >>)

PathVerdict(e) ==
  CASE e.op = "path" -> PathV(e)
    [] e.op = "paths" -> PathsV(e)
    [] e.op = "deref" -> DerefV(e)
    [] e.op = "compose" -> ComposeV(e)
    [] e.op = "prefix" -> PrefixV(e)
=============================================================================
