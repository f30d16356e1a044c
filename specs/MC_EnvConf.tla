------------------------------- MODULE MC_EnvConf -------------------------------
(* histories of environment changes and reads in one process *)
EXTENDS EnvConf, Json
CONSTANT Depth
VARIABLES env, hist
Names == {"VFA", "VFB"}
Vals == {"x", "", "${VFB}", "1"}
Texts == {"${VFA}", "a${VFA}/${VFB}", "${VFA}${VFA}", "$VFA", "${VFA", "${${VFA}}", "12", "${VF-A}", "{VFA}", "${VFC}"}
Get(n) == IF \E k \in DOMAIN env : env[k].name = n THEN {env[CHOOSE k \in DOMAIN env : env[k].name = n].value} ELSE {}
Without(n) == SelectSeq(env, LAMBDA r : r.name # n)
Init == env = <<>> /\ hist = <<>>
Set(n, x) == /\ Get(n) # {x}
             /\ env' = Append(Without(n), [name |-> n, value |-> x])
             /\ hist' = Append(hist, [do |-> "set", name |-> n, value |-> x])
Unset(n) == /\ Get(n) # {}
            /\ env' = Without(n)
            /\ hist' = Append(hist, [do |-> "unset", name |-> n, value |-> ""])
Read(tag) == /\ env' = env
             /\ hist' = Append(hist, [do |-> IF tag = "" THEN "plain" ELSE "read", name |-> tag, value |-> ""])
Next == Len(hist) < Depth /\ (\/ \E n \in Names : Unset(n) \/ \E x \in Vals : Set(n, x)
                              \/ \E t \in {"!ENV", "!CFG", ""} : Read(t))
Spec == Init /\ [][Next]_<<env, hist>>
E(s) == Expand(s, env)
(* text without references is untouched; expansion is one pass; references are found wherever they stand *)
Untouched == \A s \in Texts : ~Refers(s) => E(s) = s
Known == /\ E("${VFC}") = "VFC"
         /\ E("${VFA}${VFA}") = E("${VFA}") \o E("${VFA}")
         /\ E("a${VFA}/${VFB}") = "a" \o E("${VFA}") \o "/" \o E("${VFB}")
         /\ E("${${VFA}}") = "${" \o E("${VFA}") \o "}"
         /\ E("${VFA}") = IF Get("VFA") = {} THEN "VFA" ELSE CHOOSE x \in Get("VFA") : TRUE
References == {s \in Texts : Refers(s)} = {"${VFA}", "a${VFA}/${VFB}", "${VFA}${VFA}", "${${VFA}}", "${VFC}"}
Emit == IF Len(hist) = Depth /\ \E k \in DOMAIN hist : hist[k].do = "read" THEN PrintT("CASE" \o ToJson(hist)) ELSE TRUE
================================================================================
