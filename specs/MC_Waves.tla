-------------------------------- MODULE MC_Waves --------------------------------
EXTENDS Waves, Json
CONSTANT N
VARIABLE v
Vals == {"0", "1", "-2"}
Other(x) == [j \in DOMAIN x |-> RMul(x[(j % Len(x)) + 1], j)]
CircleInit == \E n \in 2..N : \E x \in [1..n -> Vals] : v = [op |-> "circle", x |-> x, y |-> Other(x)]
Lats == <<"-85", "-60", "-10", "0", "30", "60", "75">>
BandInit == \E a \in {"-90", "-60", "0", "5", "60"}, b \in {"-75", "-60", "0", "30", "60", "90"}, x \in {<<"1", "2", "3", "4", "5", "6", "7">>, <<"5", "none", "-1", "none", "2", "0", "3">>} :
   v = [op |-> "band", x |-> x, lat |-> Lats, a |-> a, b |-> b]
Init == CircleInit \/ BandInit
Next == FALSE /\ UNCHANGED v
C == v.op = "circle"
Waves(x) == [i \in 1..(Last(Len(x)) + 1) |-> i - 1]
Near(a, b) == RNear(a, b, "0.0000000000000000001", "0")
(* the parts add up to the field; the covariances to the mean product; wave 0 is the mean *)
Complete == C => \A j \in DOMAIN v.x : Near(RSum([i \in DOMAIN Waves(v.x) |-> Part(v.x, Waves(v.x)[i], j)]), v.x[j])
Parseval == C => Near(RSum([i \in DOMAIN Waves(v.x) |-> Cov(v.x, v.y, Waves(v.x)[i])]), RDiv(RDot(v.x, v.y), Len(v.x)))
MeanWave == C => /\ \A j \in DOMAIN v.x : Near(Part(v.x, 0, j), ZonalMean(v.x))
                 /\ Near(Cov(v.x, v.y, 0), RMul(ZonalMean(v.x), ZonalMean(v.y)))
(* a wave's own part has that wave only *)
Pure == C => \A k \in 0..Last(Len(v.x)), m \in 0..Last(Len(v.x)) :
   LET p == [j \in DOMAIN v.x |-> Part(v.x, k, j)] IN Near(Ampl(p, m), IF m = k THEN Ampl(v.x, k) ELSE "0")
(* turning the circle keeps amplitudes *)
Turned == C => LET n == Len(v.x)
                   t == [j \in 1..n |-> v.x[(j % n) + 1]] IN \A k \in 0..Last(n) : Near(Ampl(t, k), Ampl(v.x, k))
InBand == ~C /\ RLt(v.a, v.b) => LET m == MeridionalMean(v.lat, v.x, v.a, v.b)
                                     s == RSort([j \in DOMAIN v.x |-> IF RLeq(v.a, v.lat[j]) /\ RLeq(v.lat[j], v.b) THEN v.x[j] ELSE "none"])
                                 IN IF s = <<>> THEN ~RDefined(m) ELSE RLeq(s[1], m) /\ RLeq(m, s[Len(s)])
Emit == PrintT("CASE" \o ToJson(v))
================================================================================
