-------------------------------- MODULE MC_Boot ---------------------------------
(* Drawing a replicate step by step: a draw of a start, then the following rows in a circle until the block or  *)
(* the replicate is full.                                                                                       *)
EXTENDS Boot, Json
CONSTANTS
 N
VARIABLES n, L, rep, left
vars == <<n, L, rep, left>>
Init == n \in 1..N /\ L \in 1..n /\ rep = <<>> /\ left = 0
Draw == left = 0 /\ Len(rep) < n /\ \E r \in 1..n : rep' = Append(rep, r) /\ left' = L - 1 /\ UNCHANGED <<n, L>>
Follow == left > 0 /\ Len(rep) < n /\ rep' = Append(rep, Succ(rep[Len(rep)], n)) /\ left' = left - 1 /\ UNCHANGED <<n, L>>
Next == Draw \/ Follow
Spec == Init /\ [][Next]_vars
Prefix == \A k \in DOMAIN rep : rep[k] \in 1..n /\ ((k - 1) % L # 0 => rep[k] = Succ(rep[k - 1], n))
DoneLegal == Len(rep) = n => Legal(rep, n, L) /\ rep \in Reps(n, L)
RepsLegal == rep = <<>> => /\ \A r \in Reps(n, L) : Legal(r, n, L)
                           /\ Cardinality(Reps(n, L)) = n ^ Blocks(n, L)
                           /\ {r \in [1..n -> 1..n] : Legal(r, n, L)} = Reps(n, L)
Emit == rep = <<>> => PrintT("CASE" \o ToJson([n |-> n, block |-> L, reps |-> n ^ Blocks(n, L)]))
================================================================================
