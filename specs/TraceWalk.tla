------------------------------- MODULE TraceWalk -------------------------------
(* Walks a recorded trace (ndjson file named by the environment variable TRACE) event by event and classifies   *)
(* every event with the specification: Verdict(e) is the set of clauses of the specification that event e       *)
(* breaks.  The walk is total: every event is classified (see Complete), so a trace that stops short is an      *)
(* error of the machinery, never a silent pass.                                                                 *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANT Verdict(_)
VARIABLE i

(* read once: a definition would be evaluated at every step *)
Events == TLCGet(7)

Init == i = 1 /\ TLCSet(7, ndJsonDeserialize(IOEnv.TRACE))
Next == /\ i <= Len(Events)
        /\ LET bad == Verdict(Events[i])
           IN IF bad = {} THEN TRUE ELSE PrintT("FAIL" \o ToJson([i |-> i, clauses |-> bad]))
        /\ i' = i + 1
Complete == /\ TLCGet("stats").diameter = Len(Events) + 1
            /\ PrintT("DONE" \o ToString(Len(Events)))
================================================================================
