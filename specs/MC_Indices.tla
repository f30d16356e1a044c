------------------------------- MODULE MC_Indices -------------------------------
(* Short series with missing values under every window; tapers; filters on small circles with all selections.      *)
EXTENDS Indices, Json
CONSTANT L
VARIABLE v
Vals == {"0", "1", "3", "none"}
RunInit == \E q \in [1..L -> Vals], n \in 1..3 : q[1] # "none" /\ v = [op |-> "running", q |-> q, n |-> n]
TaperInit == \E n \in 4..9, w \in 1..4 : v = [op |-> "taper", n |-> n, w |-> w]
SumInit == \E a \in 1..3, m \in 0..3, th \in {"30", "45", "100", "360", "0", "-72"}, ph \in {"0", "33", "-90"} : v = [op |-> "cos", a |-> a, b |-> a + m - 1, th |-> th, ph |-> ph]
FilterInit == \E nt \in {7, 8}, nl \in 1..4, pmin \in {"2", "3"}, pmax \in {"5", "9"}, lo \in -2..1, hi \in 0..2 : lo <= hi /\ v = [op |-> "filter", nt |-> nt, nl |-> nl, pmin |-> pmin, pmax |-> pmax, lo |-> lo, hi |-> hi]
PlaneInit == \E e \in {<<"1", "0", "2">>, <<"1", "1", "0">>}, f \in {<<"0", "1", "1">>, <<"2", "-1", "0">>}, x \in [1..3 -> {"0", "1", "-2"}] : v = [op |-> "plane", e |-> e, f |-> f, x |-> x]
Init == RunInit \/ TaperInit \/ SumInit \/ FilterInit \/ PlaneInit
Next == FALSE /\ UNCHANGED v
Near9(a, b) == RNear(a, b, "0.000000000001", "0")
(* a constant has no anomaly; adding a constant changes none; the first known value has anomaly zero *)
RunLaws == v.op = "running" =>
   LET r == Running(v.q, v.n)  s == Running([k \in DOMAIN v.q |-> IF v.q[k] = "none" THEN "none" ELSE RAdd(v.q[k], "7")], v.n)
   IN r[1] = "0" /\ r = s /\ \A k \in DOMAIN v.q : (r[k] = "undef") <=> (v.q[k] = "none")
(* weights are symmetric, between 0 and 1, zero at both ends and one in the middle *)
TaperLaws == v.op = "taper" => /\ \A j \in 0..(v.n - 1) : Near9(Weight(j, v.n, v.w), Weight(v.n - 1 - j, v.n, v.w)) /\ RLeq("0", Weight(j, v.n, v.w)) /\ RLeq(Weight(j, v.n, v.w), "1")
                              /\ Weight(0, v.n, v.w) = "0" /\ \A j \in v.w..(v.n - 1 - v.w) : Weight(j, v.n, v.w) = "1"
SumLaw == v.op = "cos" => Near9(CosSum(v.a, v.b, v.th, v.ph), CosSumSlow(v.a, v.b, v.th, v.ph))
(* a band filter is a projection: applying the kernel twice is applying it once; it is symmetric under reflection of both axes *)
Ker(t, l) == Kernel(t, l, v.nt, v.nl, LowBin(v.nt, "1", v.pmax), HighBin(v.nt, "1", v.pmin), KeptWaves(v.nl, v.lo, v.hi))
FilterLaws == v.op = "filter" /\ 2 * HighBin(v.nt, "1", v.pmin) < v.nt => \A t \in {0, 1, 3} : \A l \in 0..(v.nl - 1) :
   /\ Near9(Ker(t, l), Ker(-t, -l))
   /\ Near9(RSum([s \in 1..v.nt |-> RSum([m \in 1..v.nl |-> RMul(Ker(t - s, l - m), Ker(s, m))])]), Ker(t, l))
(* what the plane leaves is orthogonal to it *)
PlaneLaw == v.op = "plane" => LET c == Coefs(v.x, v.e, v.f)  r == [k \in 1..3 |-> RSub(v.x[k], RAdd(RMul(c[1], v.e[k]), RMul(c[2], v.f[k])))] IN REq(RDot(r, v.e), "0") /\ REq(RDot(r, v.f), "0")
Emit == PrintT("CASE" \o ToJson(v))
================================================================================
