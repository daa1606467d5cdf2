------------------------------- MODULE MCDeco -------------------------------
(***************************************************************************)
(* A unit is decorated step by step. The text made of the unit and of the  *)
(* decorations in the order in which they came, each written with or       *)
(* without the focus and the multiplicity, is read as the same decorated   *)
(* unit.                                                                   *)
(***************************************************************************)
EXTENDS IEMLDeco, Json

CONSTANTS Units,    \* texts of units
          Values,   \* values of the decorations
          Depth     \* number of decorations

UnitsSmall == {"a.", "a. m2(b. c.)", "(a.)(a. b.)", "[E:A:. (a.)(b.) > ! E:A:. E:U:. (a.)]"}
UnitsLarge == UnitsSmall \cup {"m1(a. b.) m2(c. d.)", "[! E:S:. ()(a.) > E:.n.- ()(b. m1(a. c.))]", "(a. m1(b. c.))(d.)",
                               "[! E:A:. E:S:.-k.u.-' j.-U:.-'d.o.-l.o.-', (a.) > E:A:. E:S:.-k.u.-' j.-A:.-'d.o.-l.o.-', (a.)]"}
ValuesSmall == {"x", "a \"b\\", ""}

VARIABLES x, h      \* the decorated unit, the texts of the decorations that were added
vars == <<x, h>>

ASSUME TLCSet(41, [t \in Units |-> LET u == AsUnit(UParse(t)) IN <<u, {z[1] : z \in UPaths(u, FALSE)} \cup {TopPath}>>])
PathsOf(t) == TLCGet(41)[t][2]

Init == \E t \in Units : x = [u |-> TLCGet(41)[t][1], d |-> {}, ok |-> TRUE, any |-> FALSE, t |-> t] /\ h = <<>>

\* the way the path is written
Ways(q) == {q, [q EXCEPT !.f = FALSE]}
Written(q) == {PathText(p) : p \in Ways(q)} \cup (IF q.g >= 0 THEN {PathText([q EXCEPT !.n = -1])} ELSE {})

Real(q) == q.m = "" \/ ~IsEmpty(Parse(q.m))

Next == \E q \in PathsOf(x.t) : Len(h) < Depth /\ Real(q) /\ \E v \in Values, t \in Written(q) :
                 /\ x' = [x EXCEPT !.d = {z \in @ : z[1] # q} \cup {<<q, v>>}]
                 /\ h' = Append(h, "[" \o t \o " \"" \o Escape(v) \o "\"]")
Spec == Init /\ [][Next]_vars

Text == x.t \o " " \o JoinStr(h, " ")
State == [u |-> x.u, d |-> x.d, ok |-> TRUE, any |-> FALSE]

\* what is read is the decorated unit, from the history as from the canonical writing
ReadLaw == h # <<>> => DParse(Text) = State /\ DParse(DecoText(State)) = State

\* at most one value for a path; all the paths are in the unit
DecoLaw == /\ \A a \in x.d, b \in x.d : a[1] = b[1] => a = b
           /\ \A a \in x.d : Deref(a[1], x.u) # "refused" /\ Normal(a[1], x.u) = a[1]

\* the singular sequences are decorated units, whose decorations are those of the unit
SSLaw == UCheck(x.u) => \A y \in DecoSS(State) : Opening(y, 1) = 0 \/ (LET z == DParse(y) IN z.any \/ (z.ok /\ {b[2] : b \in z.d} \subseteq {a[2] : a \in x.d}))

Emit == h = <<>> \/ PrintT("CASE " \o ToJson([s |-> Text]))
=============================================================================
