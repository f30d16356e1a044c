------------------------------- MODULE MC_Images --------------------------------
(* requests on one comparison: products are made when first needed and kept *)
EXTENDS Images, Json
CONSTANT Depth
VARIABLES made, hist
(* marked images are made from the threshold image *)
Needs(p) == IF p \in {"marked1", "marked2"} THEN {p, "threshold"} ELSE IF p = "threshold" THEN {p} ELSE {}
Init == made = {} /\ hist = <<>>
Ask(d, p) == made' = made \cup Needs(p) /\ hist' = Append(hist, [do |-> d, product |-> p])
Next == Len(hist) < Depth /\ \E d \in {"save", "show"}, p \in Products : Ask(d, p)
Spec == Init /\ [][Next]_<<made, hist>>
Asked == {hist[k].product : k \in DOMAIN hist}
Made == made = UNION {Needs(p) : p \in Asked}
Emit == IF Len(hist) = Depth THEN PrintT("CASE" \o ToJson(hist)) ELSE TRUE
================================================================================
