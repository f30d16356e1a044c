--------------------------------- MODULE MC_Tost --------------------------------
(* The duality of tests and confidence intervals, and the mirror image of swapped samples, over a grid.         *)
EXTENDS Tost, Json
VARIABLE v
Ns == {2, 3, 12, 100}
Ms == {"0", "1/4", "-3/2", "40"}
Sds == {"1", "5/2"}
Rs == {"-1", "0", "9/10", "1"}
Bs == {<<"-1/2", "1/2">>, <<"-0.001", "0.001">>, <<"0", "3">>}
As == {"0.05", "0.5", "0.001"}
Init == \E n \in Ns, m1 \in Ms, m2 \in {"0", "1"}, s1 \in Sds, s2 \in Sds, r \in Rs, b \in Bs, a \in As :
   v = [n |-> n, m1 |-> m1, m2 |-> m2, sd1 |-> s1, sd2 |-> s2, r |-> r, low |-> b[1], high |-> b[2], alpha |-> a]
Next == FALSE /\ UNCHANGED v
Mirror(x) == [x EXCEPT !.m1 = x.m2, !.m2 = x.m1, !.sd1 = x.sd2, !.sd2 = x.sd1, !.low = RNeg(x.high), !.high = RNeg(x.low)]
Near(a, b) == RNear(a, b, "0.000000000001", "0.000000001")
W == Mirror(v)
MirrorLaw ==
  /\ REq(Dif(v), RNeg(Dif(W))) /\ Flat(v) = Flat(W)
  /\ Near(CiTost(v)[1], RNeg(CiTost(W)[2])) /\ Near(CiTtest(v)[2], RNeg(CiTtest(W)[1]))
  /\ Near(Xlim(v)[1], RNeg(Xlim(W)[2]))
  /\ ~Flat(v) => /\ Near(Ts(v)[1], RNeg(Ts(W)[2])) /\ Near(Ps(v)[1], Ps(W)[2]) /\ Near(Ps(v)[2], Ps(W)[1])
                 /\ Near(Pdif(v), Pdif(W))
(* equivalent iff the 1 - 2 alpha interval lies within the bounds; different iff the 1 - alpha interval excludes zero *)
Duality == ~Flat(v) =>
  /\ ~Tie(Peqv(v), v) => (Equivalent(v) <=> RLt(Bounds(v)[1], CiTost(v)[1]) /\ RLt(CiTost(v)[2], Bounds(v)[2]))
  /\ ~Tie(Pdif(v), v) => (Different(v) <=> RGt(CiTtest(v)[1], "0") \/ RLt(CiTtest(v)[2], "0"))
Nested == /\ RLeq(CiTtest(v)[1], CiTost(v)[1]) /\ RLeq(CiTost(v)[2], CiTtest(v)[2])
          /\ (RLeq(v.alpha, "0.5") => RLeq(CiTost(v)[1], Dif(v)) /\ RLeq(Dif(v), CiTost(v)[2]))
Emit == PrintT("CASE" \o ToJson(v))
================================================================================
