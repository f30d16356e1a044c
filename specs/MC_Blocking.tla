------------------------------- MODULE MC_Blocking ------------------------------
(* Runs of blocked longitudes at every place relative to the prime meridian with lengths and gaps around the        *)
(* criteria; groups that stay or drift by amounts around the overlap and travel criteria on every subset of days.   *)
EXTENDS Blocking, Json
VARIABLE v
Lens == {1, 8, 15}
Steps == {2, 7, 8}
RECURSIVE SumTo(_, _, _)
SumTo(ls, gs, k) == IF k = 1 THEN 0 ELSE SumTo(ls, gs, k - 1) + ls[k - 1] - 1 + gs[k - 1]
Layout(s, ls, gs) == [k \in DOMAIN ls |-> [s |-> (s + SumTo(ls, gs, k)) % N, n |-> ls[k]]]
Seqs(S, n) == [1..n -> S]
GroupInit == \E n \in 1..3, s \in {0, 100, 347, 359}, d \in {2, 7}, crit \in {5, 15} : \E ls \in Seqs(Lens, n), gs \in Seqs(Steps, n - 1) :
   v = [op |-> "groups", runs |-> Layout(s, ls, gs), dist |-> d, crit |-> crit]
Day(s, n, d, k, w) == [day |-> k, s |-> (s + d * k) % N, n |-> IF k % 2 = 0 THEN n ELSE n + w]
RECURSIVE Ordered(_, _, _)
Ordered(f, days, k) == IF k > 7 THEN <<>> ELSE (IF k \in days THEN <<f[k]>> ELSE <<>>) \o Ordered(f, days, k + 1)
BlockInit == \E s \in {100, 335}, d \in {0, 7, 9, 10, -8}, w \in {0, 1}, days \in SUBSET (1..7) :
   v = [op |-> "blocks", gs |-> Ordered([k \in 1..7 |-> Day(s, 20, d + N, k, w)], days, 1)]
Init == GroupInit \/ BlockInit
Next == FALSE /\ UNCHANGED v
G == v.op = "groups"
Turned(S, k) == {Turn(r, k) : r \in S}
All(rs) == UNION {Lons(rs[k]) : k \in DOMAIN rs}
(* turning the circle turns the groups *)
Circular == G => \A k \in {1, 13, 180, 359} : Turned(Groups(v.runs, v.dist, v.crit), k) = Groups([j \in DOMAIN v.runs |-> Turn(v.runs[j], k)], v.dist, v.crit)
(* groups are long enough, begin and end at blocked longitudes, hold every long run, and are farther apart than the gap *)
Sound == G => LET gs == Groups(v.runs, v.dist, v.crit) IN
   /\ \A g \in gs : g.n >= v.crit /\ g.s \in All(v.runs) /\ Last(g) \in All(v.runs)
   /\ \A k \in DOMAIN v.runs : v.runs[k].n >= v.crit => \E g \in gs : Lons(v.runs[k]) \subseteq Lons(g)
   /\ \A g, h \in gs : g # h => East(Last(g), h.s) > v.dist
(* a wider gap criterion never loses a group *)
Monotone == G => \A g \in Groups(v.runs, v.dist, v.crit) : \E h \in Groups(v.runs, v.dist + 5, v.crit) : Lons(g) \subseteq Lons(h)
B == Blocks(v.gs, 10, 5, 45)
TurnedBlocks == ~G => \A k \in {1, 25, 200} : {Turn(b, k) : b \in B} = Blocks([j \in DOMAIN v.gs |-> Turn(v.gs[j], k)], 10, 5, 45)
Persistent == ~G => /\ B = {} \/ Cardinality(B) >= 5
                    /\ \A b \in B : \E c \in B : c.day - b.day \in {-2, -1, 1, 2} /\ Overlap(b, c) > 10
                    /\ \A b, c \in B : Away(b, c) <= 90
Emit == PrintT("CASE" \o ToJson(v))
================================================================================
