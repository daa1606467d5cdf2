------------------------------- MODULE MCCache -------------------------------
(***************************************************************************)
(* The cache of the results computed from the database (get_dictionary):   *)
(* each cache folder has files named by a hash of the watched files. A     *)
(* result is taken from the cache iff there is one file and it has the     *)
(* current hash and can be read; otherwise it is computed and replaces     *)
(* every file of the cache.                                                *)
(* Coherent: what is read is always the result for the current store.      *)
(***************************************************************************)
EXTENDS IEMLStore, Json

CONSTANTS Edits, Folders, Depth
VARIABLES st, cache, seen, hist
vars == <<st, cache, seen, hist>>

E0 == [a |-> "", i |-> "", l |-> "", c |-> "", k |-> "", v |-> "", hv |-> FALSE, who |-> "", what |-> ""]
AddOf(i) == [E0 EXCEPT !.a = "add", !.i = i, !.l = "fr", !.c = "translations", !.v = "v", !.hv = TRUE]
RemOf(i) == [E0 EXCEPT !.a = "rem", !.i = i]
RootOf(i) == [E0 EXCEPT !.a = "sadd", !.i = i, !.k = "is_root", !.v = "bool:True", !.hv = TRUE]
InhOf(i) == [E0 EXCEPT !.a = "sadd", !.i = i, !.k = "inhibition", !.v = "opposed", !.hv = TRUE]
NoRoot(i) == [E0 EXCEPT !.a = "srem", !.i = i, !.k = "is_root"]
EditsSmall == {AddOf("O:O:."), RemOf("O:O:."), RootOf("O:O:."), AddOf("U:O:."), InhOf("O:O:."), AddOf("a."), NoRoot("O:O:.")}
EditsLarge == EditsSmall \cup {AddOf("O:M:."), RootOf("O:M:."), AddOf("()(a.)"), RemOf("U:O:.")}

\* the files the cache of the dictionary watches
Watched(s) == TLCEval([f \in {g \in DOMAIN s : About(g[2]).type = "morpheme" /\ About(g[2]).par} |-> s[f]])
None == [err |-> TRUE, scripts |-> <<>>, roots |-> {}, ranks |-> <<>>, inh |-> <<>>]
ResultOf(s) == LET D == StoreDict(s) IN
  IF D.err THEN None ELSE [err |-> FALSE, scripts |-> StrS(D.scripts), roots |-> D.roots, ranks |-> D.ranks, inh |-> D.inh]
Result(s) == TLCEval(ResultOf(s))

Init == st = Empty /\ cache = [f \in Folders |-> {}] /\ seen = None /\ hist = <<>>

\* a second row is_root for the same USL is not meaningful
Allowed(e) == e.a = "sadd" /\ e.k = "is_root" => SValues(st, Canon(e.i), "is_root") = <<>>
DoEdit(e) == /\ Allowed(e)
             /\ st' = Edit(st, e).st
             /\ hist' = Append(hist, e)
             /\ UNCHANGED <<cache, seen>>
Read(f) ==
  LET w == Watched(st)
      hit == Cardinality(cache[f]) = 1 /\ \A c \in cache[f] : c.key = <<"files", w>> /\ c.good
      v == IF hit THEN (CHOOSE c \in cache[f] : TRUE).val ELSE Result(st)
  IN /\ seen' = v
     /\ cache' = IF hit \/ v.err THEN cache ELSE [cache EXCEPT ![f] = {[key |-> <<"files", w>>, good |-> TRUE, val |-> v]}]
     /\ hist' = Append(hist, [E0 EXCEPT !.a = "look", !.who = f])
     /\ UNCHANGED st
Spoil(f, how) ==
  /\ cache[f] # {}
  /\ cache' = [cache EXCEPT ![f] = IF how = "more" THEN @ \cup {[key |-> <<"other">>, good |-> TRUE, val |-> None]}
                                   ELSE {[c EXCEPT !.good = FALSE] : c \in @}]
  /\ hist' = Append(hist, [E0 EXCEPT !.a = "spoil", !.who = f, !.what = how])
  /\ UNCHANGED <<st, seen>>
Next == /\ Len(hist) < Depth
        /\ \/ \E e \in Edits : DoEdit(e)
           \/ \E f \in Folders : Read(f)
           \/ \E f \in Folders, how \in {"more", "cut"} : Spoil(f, how)
Spec == Init /\ [][Next]_vars
View == <<st, cache, seen, Len(hist)>>

Coherent == [][hist' # hist /\ hist'[Len(hist')].a = "look" => seen' = Result(st)]_vars

Emit == hist'[Len(hist')].a # "look" \/ PrintT("CASE " \o ToJson([hist |-> hist']))
=============================================================================
