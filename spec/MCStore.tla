------------------------------- MODULE MCStore -------------------------------
(***************************************************************************)
(* Histories of edits of a database. Every transition of the reachable     *)
(* stores is printed, with a history that leads to it, to be replayed.     *)
(***************************************************************************)
EXTENDS IEMLStore, Json

CONSTANTS Iemls, LS, CS, VS, KVS, Depth, Kinds
VARIABLES st, hist
vars == <<st, hist>>

E0 == [a |-> "", i |-> "", l |-> "", c |-> "", k |-> "", v |-> "", hv |-> FALSE]
Adds == {[E0 EXCEPT !.a = "add", !.i = i, !.l = l, !.c = c, !.v = v, !.hv = TRUE] : i \in Iemls, l \in LS, c \in CS, v \in VS}
Rems == {[E0 EXCEPT !.a = "rem", !.i = i, !.l = l, !.c = c, !.v = v, !.hv = h] :
          i \in Iemls, l \in LS \cup {""}, c \in CS \cup {""}, v \in VS, h \in BOOLEAN}
SAdds == {[E0 EXCEPT !.a = "sadd", !.i = i, !.k = kv[1], !.v = kv[2], !.hv = TRUE] : i \in Iemls, kv \in KVS}
SRems == {[E0 EXCEPT !.a = "srem", !.i = i, !.k = kv[1], !.v = kv[2], !.hv = h] : i \in Iemls, kv \in KVS, h \in BOOLEAN}
         \cup {[E0 EXCEPT !.a = "srem", !.i = i] : i \in Iemls}
\* without a value, the value does not matter
Tidy(e) == IF e.hv THEN e ELSE [e EXCEPT !.v = ""]
Edits == {Tidy(e) : e \in (IF "d" \in Kinds THEN Adds \cup Rems ELSE {}) \cup (IF "s" \in Kinds THEN SAdds \cup SRems ELSE {})}

KVPool == {<<"is_root", "bool:True">>, <<"is_root", "false">>, <<"inhibition", "opposed">>, <<"inhibition", "twin">>, <<"is_ignored", "yes">>}
KVSmall == {<<"is_root", "bool:True">>, <<"is_root", "bool:False">>, <<"inhibition", "opposed">>}

Init == st = Empty /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E e \in Edits : st' = Edit(st, e).st /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_vars
View == <<st, Len(hist) < Depth>>

Op == hist'[Len(hist')]
Step == hist' # hist

\* C19: an edit changes nothing but the rows it names
AddLaw == [][Step /\ Op.a = "add" =>
             LET i == Canon(Op.i) IN
             \A u \in {Canon(j) : j \in Iemls}, l \in LS, c \in CS :
               Values(st', u, l, c) = Values(st, u, l, c) \o
                 (IF u = i /\ l = Op.l /\ c = Op.c /\ Norm(Op.v) # "" THEN <<Norm(Op.v)>> ELSE <<>>)]_vars
RemLaw == [][Step /\ Op.a = "rem" =>
             LET i == Canon(Op.i) IN
             \A u \in {Canon(j) : j \in Iemls}, l \in LS, c \in CS :
               LET hit == u = i /\ Op.l \in {"", l} /\ Op.c \in {"", c} IN
               Values(st', u, l, c) = IF ~hit THEN Values(st, u, l, c)
                                      ELSE IF ~Op.hv THEN <<>>
                                      ELSE SelectSeq(Values(st, u, l, c), LAMBDA x : x # Norm(Op.v))]_vars
\* C20
SLaw == [][Step /\ Op.a \in {"sadd", "srem"} =>
             /\ \A f \in DOMAIN st : f[1] = "desc" => f \in DOMAIN st' /\ st'[f] = st[f]
             /\ \A u \in {Canon(j) : j \in Iemls} : u # Canon(Op.i) => \A k \in Keys : SValues(st', u, k) = SValues(st, u, k)
             /\ Op.a = "srem" => \A k \in Keys : (k = Op.k /\ Op.hv /\ StructValue(k, Op.v) # "") =>
                  StructValue(k, Op.v) \notin Range(SValues(st', Canon(Op.i), k))]_vars
\* C21: two USLs never share a file (up to the hash of long names), a paradigm is never listed as singular
PathLaw == /\ \A f, g \in DOMAIN st : f # g /\ Len(f[2]) <= 100 => PathOf(f) # PathOf(g)
           /\ ListOf(st, "", "") = UNION {ListOf(st, t, p) : t \in {"morpheme", "polymorpheme", "lexeme", "word"}, p \in {"yes", "no"}}
           /\ \A t \in {"morpheme", "polymorpheme", "lexeme", "word"} : ListOf(st, t, "yes") \cap ListOf(st, t, "no") = {}

Emit == Len(hist') > 0 /\ PrintT("CASE " \o ToJson([hist |-> hist']))
=============================================================================
