------------------------------- MODULE MCUsl --------------------------------
(***************************************************************************)
(* The state machine of the construction of units: a polymorpheme grows    *)
(* by constants and groups, becomes the flexion or the content of a        *)
(* lexeme, the lexeme enters a word to which entries are added and whose   *)
(* focus moves. Every reachable unit is checked against the laws of the    *)
(* units, and printed to be replayed on the library.                       *)
(***************************************************************************)
EXTENDS IEMLUsl, Json

CONSTANTS Morphs,    \* the morphemes (texts) that are used
          Mults,     \* the multiplicities
          Roles,     \* the roles (sequences of texts)
          Lexs,      \* the lexemes (texts) of the entries that are added
          PMDepth,   \* number of operations on a polymorpheme
          WDepth     \* number of operations on a word

VARIABLES x, d
vars == <<x, d>>

MorphSeq == [t \in Morphs |-> Parse(t)]
LexPool == [t \in Lexs |-> UParse(t)]

Link == "E:.-wa.-k.u.-'"
RolesSmall == { <<"E:A:.">>, <<"E:A:.", "E:U:.">>, <<"E:A:.", "E:A:.">>, <<"E:S:.">>, <<"E:.n.-">>, <<"E:.k.-">>, <<"E:U:.">>,
                <<"E:A:.", "E:A:.", Link, Indexes[1]>>, <<"E:A:.", "E:A:.", Link, Indexes[2]>>, <<"E:.n.-", "E:U:.">> }
RolesLarge == RolesSmall \cup { <<"E:T:.">>, <<"E:.n.-", "E:A:.">>, <<"E:U:.", Link, Indexes[1]>>, <<"E:U:.", Link, Indexes[2]>>,
                                <<"E:A:.", Link, Indexes[1]>>, <<"E:A:.", Link, Indexes[2]>>,
                                <<"E:.n.-", Link, Indexes[1]>>, <<"E:.n.-", Link, Indexes[2]>> }

Init == /\ x \in {MkPM(<<MorphSeq[t]>>, <<>>) : t \in Morphs} \cup {EmptyPM}
        /\ d = 0

AddConst == \E t \in Morphs : x' = MkPM(Append(x.c, MorphSeq[t]), x.g)

AddGroup == /\ Len(x.g) < 3
            /\ \E t \in Morphs, n \in Mults : x' = MkPM(x.c, Append(x.g, [m |-> <<MorphSeq[t]>>, n |-> n]))

GrowGroup == \E i \in DOMAIN x.g, t \in Morphs :
                x' = MkPM(x.c, [x.g EXCEPT ![i] = [m |-> Append(x.g[i].m, MorphSeq[t]), n |-> x.g[i].n]])

PMStep == x.k = "P" /\ d < PMDepth /\ d' = d + 1 /\ (AddConst \/ AddGroup \/ GrowGroup)

ToLex == /\ x.k = "P" /\ d' = d
         /\ \/ x' = MkLex(x, EmptyPM)
            \/ x' = MkLex(EmptyPM, x)
            \/ \E t \in Morphs : x' = MkLex(x, MkPM(<<MorphSeq[t]>>, <<>>))

\* only the smallest lexemes enter words: the others are the same for the word
ToWord == /\ x.k = "L" /\ d <= 1 /\ d' = 0
          /\ \E a \in Roles : x' = MkWord(<<[a |-> a, x |-> x]>>, a) /\ x'.k = "W"

\* several entries may have to be added at once to have a word again
AddEntries == \E A \in SUBSET Roles, t \in Lexs :
                /\ Cardinality(A) \in 1..2
                /\ LET q == SetToSeq(A)
                       l == x.e \o [i \in DOMAIN q |-> [a |-> q[i], x |-> LexPool[t]]]
                   IN x' = MkWord(l, x.r) /\ x'.k = "W"

MoveFocus == \E i \in DOMAIN x.e : x.e[i].a # x.r /\ x' = MkWord(x.e, x.e[i].a)

WordStep == x.k = "W" /\ d < WDepth /\ d' = d + 1 /\ (AddEntries \/ MoveFocus)

Next == PMStep \/ ToLex \/ ToWord \/ WordStep
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* the laws *)

\* C11, C14: the canonical writing reads back as the same unit
TextLaw == x.s = "" \/ UParse(x.s) = ReadBack(x)

\* C11: the order of the morphemes, of the groups and of the entries does not matter
Reversed(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
WritingLaw ==
  CASE x.k = "P" -> MkPM(Reversed(x.c), [i \in DOMAIN x.g |-> [m |-> Reversed(x.g[Len(x.g) + 1 - i].m), n |-> x.g[Len(x.g) + 1 - i].n]]) = x
    [] x.k = "L" -> TRUE
    [] x.k = "W" -> MkWord(Reversed(x.e), x.r) = x

\* C12: the singular sequences of a valid unit are valid units of the same kind, without variation, made of its
\* morphemes, that keep its constants
SSLaw ==
  UCheck(x) =>
    LET S == USS(x) IN
    /\ (x.k = "P" /\ Len(x.c) <= MaxMorphemes) => S # {}
    /\ \A y \in S : /\ y.k = x.k /\ UCheck(y) /\ USS(y) = {y}
                    /\ MorphSet(y) \subseteq MorphSet(x)
                    /\ x.k = "P" => /\ Range(x.c) \subseteq Range(y.c)
                                    /\ x.g # <<>> => Len(y.c) <= MaxMorphemes
                                    /\ \A i \in DOMAIN x.g : Cardinality(Range(y.c) \cap Range(x.g[i].m)) <= x.g[i].n
                    /\ x.k = "W" => y.r = x.r /\ y.x = x.x /\ [i \in DOMAIN y.e |-> y.e[i].a] = [i \in DOMAIN x.e |-> x.e[i].a]
    \* no useless group: every morpheme of a group is in some variation, if there is room for it
    /\ (x.k = "P" /\ Len(x.c) < MaxMorphemes) => UNION {MorphSet(y) : y \in S} = MorphSet(x)

\* C13: a part of a valid unit is valid, and a unit with a morpheme twice, a paradigm or a wrong multiplicity is not
CheckLaw ==
  CASE x.k = "P" -> /\ (x.c # <<>> /\ PMCheck(x)) => PMCheck(MkPM(Tail(x.c), x.g))
                    /\ x.c # <<>> => ~PMCheck(MkPM(Append(x.c, x.c[1]), x.g))
                    /\ ~PMCheck(MkPM(Append(x.c, Parse("O:")), x.g))
    [] x.k = "L" -> UCheck(x) = (PMCheck(x.f) /\ PMCheck(x.c))
    [] x.k = "W" -> UCheck(x) = (\A i \in DOMAIN x.e : UCheck(x.e[i].x))

\* C14: a word has exactly one focus, among its roles, no role twice, and its roles are sorted
RoleLaw == x.k = "W" => /\ Cardinality({i \in DOMAIN x.e : x.e[i].a = x.r}) = 1
                        /\ \A i \in 1..(Len(x.e) - 1) : RoleLt(x.e[i].a, x.e[i + 1].a)
                        /\ x.x \in {"process", "dependant", "independant"}
                        /\ (~UIsEmpty(x) /\ \A i \in DOMAIN x.e : Range(x.e[i].a) \cap LinkSet = {}) => (LET y == Simplify(x) IN y.k = "W" /\ y.r = x.r /\ MorphSet(y) = MorphSet(x)
                             /\ Simplify(y) = y)

\* C18: a strict total order, compared with units of every kind
OrderPoolDef == TLCEval({UParse(t) : t \in {"a.", "wa.", "a. wa.", "b. m1(a. wa.)", "m1(a. b.)", "m2(a. b.)", "m1(E:)", "(a.)", "()(a.)", "(m1(a. b.))",
   "(a.)(b.)", "[! E:A:. ()]", "[! E:A:. (a.)]", "[E:A:. (a.) > ! E:A:. E:U:. (b.)]", "[! E:U:. (a.)]", "[! E:S:. (a.)]",
   "[! E:S:. (a.) > E:.n.- ()]", "[E:S:. (a.) > ! E:.n.- ()]"}})
PoolLtDef == TLCEval({<<p[1].s, p[2].s>> : p \in {q \in OrderPoolDef \X OrderPoolDef : ULt(q[1], q[2])}})
ASSUME TLCSet(21, OrderPoolDef) /\ TLCSet(22, PoolLtDef)     \* computed once
OrderLaw == x.s # "" =>
            LET OrderPool == TLCGet(21)
                PoolLt == TLCGet(22)
                below == TLCEval({a.s : a \in {z \in OrderPool : ULt(z, x)}})
                above == TLCEval({a.s : a \in {z \in OrderPool : ULt(x, z)}})
            IN /\ ~ULt(x, x)
               /\ below \cap above = {}
               /\ \A a \in OrderPool : a.s = x.s \/ a.s \in below \cup above
               /\ \A a \in below, b \in above : <<a, b>> \in PoolLt      \* a < x < b => a < b
               /\ \A p \in PoolLt : (p[1] \in above => p[2] \in above)  \* x < a < b => x < b
                                    /\ (p[2] \in below => p[1] \in below)

Emit == x.s = "" \/ PrintT("CASE " \o ToJson([s |-> x.s]))
=============================================================================
