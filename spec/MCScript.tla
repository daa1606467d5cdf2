------------------------------ MODULE MCScript ------------------------------
(***************************************************************************)
(* The state machine of the construction of morphemes: from the sums of    *)
(* primitives, multiply and add. Every reachable morpheme is checked       *)
(* against the laws of the algebra and printed, to be replayed on the      *)
(* library.                                                                *)
(***************************************************************************)
EXTENDS IEMLTables, Json

CONSTANTS Seeds,   \* the sets of primitives the construction starts from
          P0,      \* the morphemes (texts) of layer 0, 1, 2 used as operands
          P1,
          P2,
          LMax,    \* maximal layer
          NMax,    \* maximal cardinal
          Depth    \* maximal number of operations

VARIABLES x, d
vars == <<x, d>>

SmallSeeds == { {"E"}, {"U"}, {"S"}, {"U", "A"}, {"S", "B", "T"}, {"E", "S"}, {"A", "T"} }
AllSeeds == (SUBSET Primitives) \ { {} }

Pool == << {Parse(t) : t \in P0}, {Parse(t) : t \in P1}, {Parse(t) : t \in P2} >>

Init == /\ x \in {MkAdd({Prim(c) : c \in S}) : S \in Seeds}
        /\ d = 0

Small(y) == ~IsErr(y) /\ y.n <= NMax

Mul == /\ x.l < LMax
       /\ \E i \in 1..3, a \in Pool[x.l + 1], b \in Pool[x.l + 1] :
            LET y == MkMul(IF i = 1 THEN <<x, a, b>> ELSE IF i = 2 THEN <<a, x, b>> ELSE <<a, b, x>>)
            IN Small(y) /\ x' = y

Add == /\ x.l <= 2
       /\ \E a \in Pool[x.l + 1] : LET y == MkAdd({x, a}) IN Small(y) /\ x' = y

Next == d < Depth /\ d' = d + 1 /\ (Mul \/ Add)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* the laws *)

\* C01: the canonical writing reads back as the same morpheme
ReadBack == Parse(x.s) = x

\* C01: the order and the repetition of the addends do not matter, nor the explicit nulls
Writings ==
  /\ x.t = "A" /\ x.l > 0 =>
       LET rev == [i \in DOMAIN x.ch |-> x.ch[Len(x.ch) + 1 - i].s]
       IN Parse(JoinStr(rev \o <<x.ch[1].s>>, "+")) = x
  /\ x.t = "M" /\ x.l < 3 => Parse(x.ch[1].s \o x.ch[2].s \o x.ch[3].s \o MarkOf(x.l)) = x

\* C02: as many singular sequences as the cardinal, in strictly increasing order, each of them
\* singular, contained in the morpheme
SSLaw == LET q == SSeq(x) IN
         /\ Len(q) = x.n
         /\ \A i \in 1..(Len(q) - 1) : Lt(q[i], q[i + 1])
         /\ \A i \in DOMAIN q : q[i].n = 1 /\ q[i].l = x.l /\ SSeq(q[i]) = <<q[i]>>
         /\ \A i \in DOMAIN q : Includes(x, q[i])
         /\ x.n <= MaxSS

\* C03: strict total order
OrderLaw == /\ ~Lt(x, x)
            /\ x.l <= 2 => \A a \in Pool[x.l + 1] : (a.s # x.s) => (Lt(a, x) # Lt(x, a))
            /\ x.l <= 2 => \A a, b \in Pool[x.l + 1] : /\ (Lt(a, x) /\ Lt(x, b)) => Lt(a, b)
                                                       /\ (Lt(x, a) /\ Lt(a, b)) => Lt(x, b)
            /\ x.t = "A" => \A i \in 1..(Len(x.ch) - 1) : Lt(x.ch[i], x.ch[i + 1])

\* C05: the cells are exactly the singular sequences, the tables are parts of the paradigm
TabLaw == LET T == Tab(x) IN
          T.err \/ ( /\ CellSet(T) = SSet(x)
                     /\ \A i \in DOMAIN T.ts : Includes(x, T.ts[i])
                     /\ UNION {SSet(T.ts[i]) : i \in DOMAIN T.ts} = SSet(x)
                     /\ \A i \in DOMAIN T.hd : \A k \in DOMAIN T.hd[i] : \A h \in DOMAIN T.hd[i][k] :
                          Includes(x, T.hd[i][k][h]) )

\* C06: the class of a sum is the greatest class, the class of a product that of its substance
ClassLaw == /\ x.g \in 0..2
            /\ IsEmpty(x) => x.g = 0
            /\ x.g = Max3({z.g : z \in Range(SSeq(x))})

Emit == PrintT("CASE " \o ToJson([s |-> x.s]))
=============================================================================
