-------------------------------- MODULE MC_Indep --------------------------------
(* Sequences of calls in one process.  A call of any kind may change the process-wide warning policy and must   *)
(* put a harmless policy back on every way out, including the early ones; under the strict policy a call that   *)
(* does not set the policy itself would answer differently, so harmlessness at call boundaries is what makes    *)
(* answers independent.  The model explores every sequence of kinds up to length Depth and emits it.            *)
EXTENDS Sequences, Naturals, Json, TLC
CONSTANTS Depth
VARIABLES hist, policy, running
vars == <<hist, policy, running>>
Kind == {"value", "undefined", "early", "missing", "empty", "table", "eclv", "run", "equalize"}
SetsPolicy == Kind \ {"table", "equalize"}
Init == hist = <<>> /\ policy = "default" /\ running = "no"
Enter(k) == /\ running = "no" /\ Len(hist) < Depth
            /\ running' = k /\ hist' = Append(hist, k)
            /\ policy' = IF k \in SetsPolicy THEN "strict" ELSE policy
Exit == /\ running # "no" /\ running' = "no" /\ UNCHANGED hist
        /\ policy' = IF running \in SetsPolicy THEN "ignore" ELSE policy
Next == Exit \/ \E k \in Kind : Enter(k)
Spec == Init /\ [][Next]_vars
(* what a call that relies on the ambient policy would meet *)
Harmless == running = "no" => policy # "strict"
Ambient == running \in (Kind \ SetsPolicy) => policy # "strict"
Emit == (running = "no" /\ Len(hist) = Depth) => PrintT("CASE" \o ToJson(hist))
================================================================================
