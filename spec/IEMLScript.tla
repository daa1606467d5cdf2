----------------------------- MODULE IEMLScript -----------------------------
(***************************************************************************)
(* The algebra of IEML morphemes (scripts): writing, parsing, canonical    *)
(* form, singular sequences, order, grammatical class, factorisation       *)
(* contract, tables, cells and headers.                                    *)
(*                                                                         *)
(* A morpheme is a record in canonical form:                               *)
(*   t  : "N" null, "P" primitive, "A" sum, "M" product                    *)
(*   l  : layer 0..6                                                       *)
(*   ch : its children (sum: the addends in canonical order, product: 3)   *)
(*   s  : its canonical writing                                            *)
(*   cn : the byte string used by the order                                *)
(*   n  : its cardinal (number of singular sequences)                      *)
(*   g  : its grammatical class 0 auxiliary 1 verb 2 noun                  *)
(* An error (too many singular sequences, bad syntax) is the record Err.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

MaxSS     == 360
MaxHeader == 12
MaxLayer  == 6

Marks == <<":", ".", "-", "'", ",", "_", ";">>
MarkOf(l) == Marks[l + 1]

PrimValue(c) == CASE c = "E" -> 1 [] c = "U" -> 2 [] c = "A" -> 4
                  [] c = "S" -> 8 [] c = "B" -> 16 [] c = "T" -> 32
Primitives == {"E", "U", "A", "S", "B", "T"}

\* the remarkable additions
RemAddOf(c) == CASE c = "O" -> {"U", "A"}
                 [] c = "M" -> {"S", "B", "T"}
                 [] c = "F" -> {"U", "A", "S", "B", "T"}
                 [] c = "I" -> {"E", "U", "A", "S", "B", "T"}
RemAdds == {"O", "M", "F", "I"}

\* the remarkable multiplications
RemMul == [wo |-> <<"U","U">>, wa |-> <<"U","A">>, y |-> <<"U","S">>, o |-> <<"U","B">>, e |-> <<"U","T">>,
           wu |-> <<"A","U">>, we |-> <<"A","A">>, u |-> <<"A","S">>, a |-> <<"A","B">>, i |-> <<"A","T">>,
           j  |-> <<"S","U">>, g  |-> <<"S","A">>, s |-> <<"S","S">>, b |-> <<"S","B">>, t |-> <<"S","T">>,
           h  |-> <<"B","U">>, c  |-> <<"B","A">>, k |-> <<"B","S">>, m |-> <<"B","B">>, n |-> <<"B","T">>,
           p  |-> <<"T","U">>, x  |-> <<"T","A">>, d |-> <<"T","S">>, f |-> <<"T","B">>, l |-> <<"T","T">>]
RemMulNames == DOMAIN RemMul

-----------------------------------------------------------------------------
(* byte strings *)
RECURSIVE CatAll(_)
CatAll(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o CatAll(Tail(ss))

\* lexicographic strict order of two sequences of naturals
LexLt(a, b) ==
  LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      D == {i \in 1..m : a[i] # b[i]}
  IN IF D = {} THEN Len(a) < Len(b)
     ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN a[i] < b[i]

RECURSIVE JoinStr(_, _)
JoinStr(ss, sep) == IF Len(ss) = 0 THEN ""
                    ELSE IF Len(ss) = 1 THEN ss[1]
                    ELSE ss[1] \o sep \o JoinStr(Tail(ss), sep)

-----------------------------------------------------------------------------
(* constructors of canonical morphemes *)

Err == [t |-> "X", l |-> -1, ch |-> <<>>, s |-> "", cn |-> <<>>, n |-> 0, g |-> -1]
IsErr(x) == x.t = "X"

RECURSIVE NullStr(_)
NullStr(l) == IF l = 0 THEN "E:" ELSE NullStr(l - 1) \o MarkOf(l)

RECURSIVE Pow3(_)
Pow3(l) == IF l = 0 THEN 1 ELSE 3 * Pow3(l - 1)

Null(l) == [t |-> "N", l |-> l, ch |-> <<>>, s |-> NullStr(l),
            cn |-> TLCEval([i \in 1..Pow3(l) |-> 1]), n |-> 1, g |-> 0]

\* O and its members are verbs, the others nouns, the null script auxiliary
PrimClass(c) == IF c \in RemAddOf("O") THEN 1 ELSE 2

Prim(c) == IF c = "E" THEN Null(0)
           ELSE [t |-> "P", l |-> 0, ch |-> <<>>, s |-> c \o ":", cn |-> <<PrimValue(c)>>, n |-> 1,
                 g |-> PrimClass(c)]

\* the order of morphemes: layer, null first, cardinal, canonical byte string, then
\* product before sum, then children
RECURSIVE Lt(_, _)
RECURSIVE ChildrenLt(_, _)
ChildrenLt(a, b) ==
  IF a = <<>> THEN b # <<>>
  ELSE IF b = <<>> THEN FALSE
  ELSE IF a[1].s = b[1].s THEN ChildrenLt(Tail(a), Tail(b))
  ELSE Lt(a[1], b[1])

Lt(a, b) ==
  IF a.s = b.s THEN FALSE
  ELSE IF a.l # b.l THEN a.l < b.l
  ELSE IF a.t = "N" THEN TRUE
  ELSE IF b.t = "N" THEN FALSE
  ELSE IF a.n # b.n THEN a.n < b.n
  ELSE IF a.cn # b.cn THEN LexLt(a.cn, b.cn)
  ELSE IF a.t # b.t THEN a.t = "M"
  ELSE ChildrenLt(a.ch, b.ch)

Sorted(S) == TLCEval(SortSeq(TLCEval(SetToSeq(S)), Lt))

IsEmpty(x) == x.t = "N"

\* the singular sequences of a morpheme, in canonical order
RECURSIVE SSeq(_)

Max3(S) == CHOOSE x \in S : \A y \in S : x >= y

BitsOf(S) == LET F[X \in SUBSET S] == IF X = {} THEN 0
                 ELSE LET y == CHOOSE y \in X : TRUE IN PrimValue(y) + F[X \ {y}]
             IN F[S]

\* product of three morphemes of the same layer l (result of layer l + 1)
MkMul(c) ==
  IF \E i \in 1..3 : IsErr(c[i]) THEN Err
  ELSE IF ~(c[1].l = c[2].l /\ c[2].l = c[3].l) \/ c[1].l >= MaxLayer THEN Err
  ELSE IF IsEmpty(c[1]) /\ IsEmpty(c[2]) /\ IsEmpty(c[3]) THEN Null(c[1].l + 1)
  ELSE
   LET body == c[1].s \o (IF IsEmpty(c[2]) /\ IsEmpty(c[3]) THEN "" ELSE c[2].s)
                      \o (IF IsEmpty(c[3]) THEN "" ELSE c[3].s)
       names == IF c[1].l # 0 THEN {} ELSE {k \in RemMulNames : c[1].t = "P" /\ c[2].t = "P" /\ IsEmpty(c[3])
                                     /\ c[1].s = RemMul[k][1] \o ":" /\ c[2].s = RemMul[k][2] \o ":"}
       txt == (IF names # {} THEN CHOOSE k \in names : TRUE ELSE body) \o MarkOf(c[1].l + 1)
       card == c[1].n * c[2].n * c[3].n
   IN IF card > MaxSS THEN Err
      ELSE [t |-> "M", l |-> c[1].l + 1, ch |-> c, s |-> txt,
            cn |-> c[1].cn \o c[2].cn \o c[3].cn, n |-> card, g |-> c[1].g]

\* sum of a non empty set of morphemes of the same layer
MkAdd(S) ==
  IF \E x \in S : IsErr(x) THEN Err
  ELSE IF \E x, y \in S : x.l # y.l THEN Err
  ELSE
   LET flat == UNION {IF x.t = "A" THEN {x.ch[i] : i \in DOMAIN x.ch} ELSE {x} : x \in S}
   IN IF Cardinality(flat) = 1 THEN CHOOSE x \in flat : TRUE
      ELSE
       LET ch == Sorted(flat)
           l  == ch[1].l
           chars == {SubSeq(x.s, 1, 1) : x \in flat}
           names == IF l = 0 THEN {k \in RemAdds : RemAddOf(k) = chars} ELSE {}
           txt == IF names # {} THEN (CHOOSE k \in names : TRUE) \o ":"
                  ELSE JoinStr([i \in DOMAIN ch |-> ch[i].s], "+")
           card == Cardinality(UNION {{z.s : z \in Range(SSeq(x))} : x \in flat})
           cn == IF l = 0 THEN <<BitsOf(chars)>> ELSE CatAll([i \in DOMAIN ch |-> ch[i].cn])
       IN IF card > MaxSS THEN Err
          ELSE [t |-> "A", l |-> l, ch |-> ch, s |-> txt, cn |-> cn, n |-> card,
                g |-> Max3({x.g : x \in flat})]

SSeq(x) ==
  IF x.t \in {"N", "P"} \/ x.n = 1 THEN <<x>>
  ELSE IF x.t = "A" THEN Sorted(UNION {Range(SSeq(x.ch[i])) : i \in DOMAIN x.ch})
  ELSE LET A == SSeq(x.ch[1])
           B == SSeq(x.ch[2])
           C == SSeq(x.ch[3])
           nb == Len(B)
           nc == Len(C)
       IN TLCEval([k \in 1..(Len(A) * nb * nc) |->
             MkMul(<<A[((k - 1) \div (nb * nc)) + 1], B[(((k - 1) \div nc) % nb) + 1], C[((k - 1) % nc) + 1]>>)])

SSet(x) == TLCEval({z.s : z \in Range(SSeq(x))})
Includes(x, y) == x.l = y.l /\ SSet(y) \subseteq SSet(x)

-----------------------------------------------------------------------------
(* reading a text *)

Blank == {" ", "\t", "\n"}

\* tokens: <<kind, value>>
RECURSIVE LexFrom(_, _)
LexFrom(txt, i) ==
  IF i > Len(txt) THEN <<>>
  ELSE LET c == SubSeq(txt, i, i)
           d == IF i < Len(txt) THEN SubSeq(txt, i, i + 1) ELSE ""
       IN IF c \in Blank THEN LexFrom(txt, i + 1)
          ELSE IF c \in Primitives THEN <<<<"prim", c>>>> \o LexFrom(txt, i + 1)
          ELSE IF c \in RemAdds THEN <<<<"add", c>>>> \o LexFrom(txt, i + 1)
          ELSE IF d \in RemMulNames THEN <<<<"mul", d>>>> \o LexFrom(txt, i + 2)
          ELSE IF c \in RemMulNames THEN <<<<"mul", c>>>> \o LexFrom(txt, i + 1)
          ELSE IF c = "+" THEN <<<<"plus", c>>>> \o LexFrom(txt, i + 1)
          ELSE IF \E k \in 1..7 : Marks[k] = c
               THEN <<<<"mark", c>>>> \o LexFrom(txt, i + 1)
          ELSE <<<<"bad", c>>>> \o LexFrom(txt, i + 1)

LayerOfMark(c) == (CHOOSE k \in 1..7 : Marks[k] = c) - 1

\* stack items: [k |-> "e", v |-> morpheme] or [k |-> "+", v |-> Err]
Item(x) == [k |-> "e", v |-> x]
PlusItem == [k |-> "+", v |-> Err]

\* push a morpheme; a pending "+" whose left operand has the same layer is reduced
Push(st, x) ==
  LET n == Len(st) IN
  IF n >= 2 /\ st[n].k = "+" /\ st[n-1].k = "e" /\ st[n-1].v.l = x.l
  THEN Append(SubSeq(st, 1, n - 2), Item(MkAdd({st[n-1].v, x})))
  ELSE Append(st, Item(x))

RECURSIVE RunLen(_, _)
RunLen(st, l) == IF st = <<>> THEN 0
                 ELSE LET z == st[Len(st)] IN
                      IF z.k = "e" /\ z.v.l = l THEN 1 + RunLen(SubSeq(st, 1, Len(st) - 1), l) ELSE 0

\* [ok, st]
RECURSIVE Reduce(_, _, _)
Reduce(toks, i, st) ==
  IF \E k \in DOMAIN st : st[k].k = "e" /\ IsErr(st[k].v) THEN Err
  ELSE IF i > Len(toks) THEN (IF Len(st) = 1 /\ st[1].k = "e" THEN st[1].v ELSE Err)
  ELSE LET tk == toks[i]
           nx == IF i < Len(toks) THEN toks[i + 1] ELSE <<"end", "">>
       IN CASE tk[1] = "prim" -> IF nx = <<"mark", ":">> THEN Reduce(toks, i + 2, Push(st, Prim(tk[2]))) ELSE Err
            [] tk[1] = "add" -> IF nx = <<"mark", ":">>
                                THEN Reduce(toks, i + 2, Push(st, MkAdd({Prim(c) : c \in RemAddOf(tk[2])}))) ELSE Err
            [] tk[1] = "mul" -> IF nx = <<"mark", ".">>
                                THEN LET q == RemMul[tk[2]] IN
                                     Reduce(toks, i + 2, Push(st, MkMul(<<Prim(q[1]), Prim(q[2]), Null(0)>>)))
                                ELSE Err
            [] tk[1] = "plus" -> IF st # <<>> /\ st[Len(st)].k = "e" THEN Reduce(toks, i + 1, Append(st, PlusItem)) ELSE Err
            [] tk[1] = "mark" ->
                 LET l == LayerOfMark(tk[2])
                     r == IF l = 0 THEN 0 ELSE RunLen(st, l - 1)
                     n == Len(st)
                     arg(k) == IF k <= r THEN st[n - r + k].v ELSE Null(l - 1)
                 IN IF r < 1 \/ r > 3 THEN Err
                    ELSE Reduce(toks, i + 1, Push(SubSeq(st, 1, n - r), MkMul(<<arg(1), arg(2), arg(3)>>)))
            [] OTHER -> Err

Parse(txt) == Reduce(LexFrom(txt, 1), 1, <<>>)
=============================================================================
