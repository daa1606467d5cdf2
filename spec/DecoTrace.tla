------------------------------ MODULE DecoTrace ------------------------------
(* judges the observations made on the decorated units (C17) *)
EXTENDS IEMLDeco, Walk

\* op "deco": a text was read as a decorated unit
DecoV(e) ==
  LET x == TLCEval(DParse(e.in)) IN
  IF x.any THEN Failing(<< <<"a text is read or refused with CannotParse", e.ok \/ e.out = "refused">> >>)
  ELSE IF ~x.ok THEN Failing(<< <<"a path that the unit does not have, or a wrong text, is refused with CannotParse", ~e.ok /\ e.out = "refused">> >>)
  ELSE IF ~e.ok THEN {"a decorated unit is read"}
  ELSE Failing(<< <<"the unit that is decorated", e.unit = x.u.s>>,
                  <<"the decorations are those of the text", {<<e.decos[i][1], e.decos[i][2]>> : i \in DOMAIN e.decos} = {<<PathText(z[1]), z[2]>> : z \in x.d}
                                                             /\ Len(e.decos) = Cardinality(x.d)>>,
                  <<"canonical writing of a decorated unit", Mixed(x) \/ e.out = DecoText(x)>>,
                  <<"the writing reads back as an equal decorated unit", e.again = e.out /\ e.eq>>,
                  <<"nothing is left on the unit or its morphemes", e.clean>>,
                  <<"morphemes of the decorated unit", e.morphs = Morphemes(x.u)>>,
                  <<"class of the decorated unit", e.cls>> >>)

\* op "decoss": its singular sequences
DecoSSV(e) ==
  LET x == TLCEval(DParse(e.in)) IN
  IF x.any \/ ~x.ok \/ Mixed(x) THEN {}
  ELSE LET S == TLCEval(DecoSS(x)) IN
       Failing(<< <<"the singular sequences keep the decorations of what they contain", Range(e.ss) = S>>,
                  <<"no duplicate", Len(e.ss) = Cardinality(S) /\ e.card = Len(e.ss)>>,
                  <<"the decorated unit is not modified", e.after = DecoText(x)>> >>)

\* op "literal": literals were set on the components at some paths, whose components are at no other path of the unit
LiteralV(e) ==
  LET u == UParse(e.in)
      J == DOMAIN e.paths
      q == [i \in J |-> PParse(e.paths[i])]
      x == [u |-> u, d |-> {<<Normal(q[i], u), e.values[i]>> : i \in J}, ok |-> TRUE, any |-> FALSE]
      ds == DecoSeq(x)
  IN IF ~IsUsl(u) \/ (\E i \in J : q[i].u \/ ~q[i].ok) \/ ~HasPaths(u) \/ ~UCheck(u) \/ (\E i \in J : Deref(q[i], u) = "refused") THEN {}
     ELSE Failing(<< <<"the literals of the components are the decorations of the unit",
                       e.decos = [i \in DOMAIN ds |-> <<PathText(ds[i][1]), ds[i][2]>>]>>,
                     <<"nothing is left on the components", e.clean>> >>)

DecoVerdict(e) ==
  CASE e.op = "deco" -> DecoV(e)
    [] e.op = "decoss" -> DecoSSV(e)
    [] e.op = "literal" -> LiteralV(e)
=============================================================================
