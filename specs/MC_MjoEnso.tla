------------------------------- MODULE MC_MjoEnso -------------------------------
(* Short fluxes under small filters and patterns; Kelvin waves on bands around the equator; calendars.             *)
EXTENDS MjoEnso, Json
CONSTANT L
VARIABLE v
Filters == {<<"0">>, <<"1/2">>, <<"1/4", "1/2", "1/8">>}
TauInit == \E a, b \in [1..L -> {"0", "1", "-2"}], f \in Filters, g \in {<<"1">>, <<"1/4", "1/2", "1/4">>} :
   v = [op |-> "tau", x |-> <<a, b>>, p |-> <<<<"1", "2">>, <<"-1", "1">>>>, f |-> <<f, f>>, g |-> <<g, g>>]
WaveInit == \E s \in {"-1", "-2", "-5", "-10"}, w \in {"1", "2", "5", "10"}, n \in 3..7 : v = [op |-> "wave", s |-> s, w |-> w, n |-> n]
MonthInit == \E n \in {100, 130, 200}, d \in 1..31 : v = [op |-> "month", day |-> [k \in 1..n |-> ((d + k - 2) % 31) + 1]]
Init == TauInit \/ WaveInit \/ MonthInit
Next == FALSE /\ UNCHANGED v
Near9(a, b) == RNear(a, b, "0.000000000001", "0")
Same(a, b) == \A k \in DOMAIN a : \A t \in DOMAIN a[k] : (RDefined(a[k][t]) <=> RDefined(b[k][t])) /\ (RDefined(a[k][t]) => Near9(a[k][t], b[k][t]))
(* the sign of a pattern and the order of the points do not matter; twice the flux has four times the stress *)
TauLaws == v.op = "tau" =>
   LET r == Tau(v.x, v.p, v.f, v.g)
       s == Tau(v.x, <<<<"-1", "-2">>, <<"-1", "1">>>>, v.f, v.g)
       o == Tau(<<v.x[2], v.x[1]>>, <<<<"2", "1">>, <<"1", "-1">>>>, <<v.f[2], v.f[1]>>, <<v.g[2], v.g[1]>>)
       d == Tau([k \in 1..2 |-> [t \in 1..L |-> RMul("2", v.x[k][t])]], v.p, v.f, v.g)
   IN Same(r, s) /\ Same(r, <<o[2], o[1]>>) /\ Same(d, [k \in 1..2 |-> [t \in 1..L |-> RMul("4", r[k][t])]])
(* no first filter and a unit second one leave the flux as it is *)
PassLaw == v.op = "tau" /\ v.f[1] = <<"0">> /\ v.g[1] = <<"1">> => \A k \in 1..2 : \A t \in 1..L : REq(Passed(v.x[k], v.f[k], v.g[k])[t], v.x[k][t])
(* positive, the mirror image on the mirrored band, and its square sums to one half over the band up to the error of the rule *)
WaveLaws == v.op = "wave" =>
   LET k == Kelvin(v.s, v.w, v.n)  m == Kelvin(RNeg(v.w), RNeg(v.s), v.n)
       dy == RDiv(RDiv(RSub(v.w, v.s), Radius), Str(v.n))
   IN /\ \A j \in 1..v.n : (RLt(dy, "2/3") => RLt("0", k[j])) /\ Near9(k[j], m[v.n + 1 - j])
      /\ RLt(dy, "1") => RNear(RMul(dy, RDot(k, k)), "1/2", "0.06", "0")
MonthLaws == v.op = "month" => LET m == Months(v.day) IN /\ \A j \in DOMAIN m : v.day[m[j]] = 1 /\ m[j] > 90
                                                         /\ \A j \in 1..(Len(m) - 1) : m[j + 1] - m[j] = 31
Emit == PrintT("CASE" \o ToJson(v))
================================================================================
