------------------------------- MODULE MC_Regimes -------------------------------
(* Every labelling of short seasons with every window, every renaming of three classes, and forecast patterns that  *)
(* compete for the same observed pattern.                                                                            *)
EXTENDS Regimes, Json
CONSTANT L
VARIABLE v
Labels == [1..L -> 1..3]
Maps == {<<"0", "0", "1">>, <<"0", "1", "0">>, <<"1", "1", "0">>, <<"0", "1", "2">>}
FreqInit == \E lab \in Labels, w \in 1..3 : v = [op |-> "freq", lab |-> lab, w |-> w]
ReorderInit == \E lab \in [1..3 -> 1..3], o \in Perms(3) : v = [op |-> "reorder", lab |-> lab, order |-> o]
MatchInit == \E obs \in [1..3 -> Maps], fc \in [1..3 -> Maps] : v = [op |-> "match", obs |-> obs, fc |-> fc]
SeriesInit == \E q \in [1..4 -> {"0", "1", "3"}] : v = [op |-> "series", q |-> q]
Init == FreqInit \/ ReorderInit \/ MatchInit \/ SeriesInit
Next == FALSE /\ UNCHANGED v
(* the classes of a window add up to its length; consecutive windows differ by the day that leaves and the day that enters *)
Windowed == v.op = "freq" => \A d \in 1..Windows(v.lab, v.w) :
   /\ Count(v.lab, 1, d, v.w) + Count(v.lab, 2, d, v.w) + Count(v.lab, 3, d, v.w) = v.w
   /\ d < Windows(v.lab, v.w) => \A c \in 1..3 : Count(v.lab, c, d + 1, v.w) = Count(v.lab, c, d, v.w) - (IF v.lab[d] = c THEN 1 ELSE 0) + (IF v.lab[d + v.w] = c THEN 1 ELSE 0)
(* renaming keeps the partition and can be undone *)
Renamed == v.op = "reorder" => LET r == Relabel(v.lab, v.order) IN
   /\ \A a, b \in 1..3 : (r[a] = r[b]) <=> (v.lab[a] = v.lab[b])
   /\ \A a \in 1..3 : v.order[r[a]] = v.lab[a]
(* there is always a matching and matching a set with itself pairs equal patterns *)
Matched == v.op = "match" => LET good == {f \in Perms(3) : Greedy(v.obs, v.fc, f)} IN
   /\ good # {}
   /\ (v.obs = v.fc /\ Cardinality({v.fc[k] : k \in 1..3}) = 3) => \A f \in good : \A k \in 1..3 : f[k] = k
(* what is left of a series has no mean and no slope, and detrending it again changes nothing *)
Left == v.op = "series" => LET r == Residual(v.q) IN
   RSum(r) = "0" /\ RDot(Axis(4), r) = "0" /\ Residual(r) = r /\ \A b \in {"0", "2", "-1/3"} : Residual([k \in 1..4 |-> RAdd(v.q[k], RMul(b, ToString(k)))]) = r
Emit == PrintT("CASE" \o ToJson(v))
================================================================================
