------------------------------- MODULE Walk -------------------------------
(***************************************************************************)
(* Walks over a recorded trace of independent observations (one JSON       *)
(* object per line) and prints, for each of them, the clauses of the       *)
(* specification that it violates. The verdict of an observation is the    *)
(* set of the names of the violated clauses. The observations are shared   *)
(* between lanes so that the TLC workers can evaluate them in parallel.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Verdict(_), Lanes

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES lane, pos
vars == <<lane, pos>>

Idx == lane + pos * Lanes

WalkInit == lane \in 1..Lanes /\ pos = 0

WalkNext == /\ Idx <= Len(Trace)
            /\ LET e == Trace[Idx]
                   v == IF e.op = "crash" THEN {"the library answers without crashing"}
                        ELSE IF e.op = "skip" THEN {} ELSE Verdict(e) IN
               IF v = {} THEN TRUE ELSE PrintT("VERDICT " \o ToJson([line |-> Idx, clauses |-> v]))
            /\ pos' = pos + 1
            /\ lane' = lane

WalkSpec == WalkInit /\ [][WalkNext]_vars

\* every observation was judged
WalkDone == TLCGet("stats").distinct = Lanes + Len(Trace)

\* [c] |-> clause: the failing clauses of a list <<name, holds>>
Failing(cl) == {cl[i][1] : i \in {j \in DOMAIN cl : ~cl[j][2]}}
=============================================================================
