-------------------------------- MODULE MC_Rat ---------------------------------
(* The Java arithmetic agrees with cross-multiplication on integer pairs, and obeys its laws, on a small scope. *)
EXTENDS Rat, Integers, FiniteSets

N == -4..4
D == 1..4
S(n, d) == RDiv(n, d)
VARIABLE x
Init == x \in (N \X D) \X (N \X D)
Next == UNCHANGED x
a == S(x[1][1], x[1][2])
b == S(x[2][1], x[2][2])
an == x[1][1]  ad == x[1][2]  bn == x[2][1]  bd == x[2][2]
Arith ==
  /\ RAdd(a, b) = S(an*bd + bn*ad, ad*bd)
  /\ RSub(a, b) = S(an*bd - bn*ad, ad*bd)
  /\ RMul(a, b) = S(an*bn, ad*bd)
  /\ RDiv(a, b) = IF bn = 0 THEN Undef ELSE S(an*bd, ad*bn)
  /\ RLt(a, b) = (an*bd < bn*ad)
  /\ RLeq(a, b) = (an*bd <= bn*ad)
  /\ REq(a, b) = (an*bd = bn*ad) /\ ((a = b) = (an*bd = bn*ad))
  /\ LET f == RToInt(RFloor(a)) IN f * ad <= an /\ (f + 1) * ad > an
  /\ RSqrt(RSq(a)) = RAbs(a)
  /\ RAdd(a, Undef) = Undef /\ RMul(Undef, b) = Undef /\ ~RLeq(a, Undef)
  /\ RSum(<<a, b, a>>) = RAdd(a, RAdd(b, a))
  /\ RSort(<<a, b>>) = IF RLeq(a, b) THEN <<a, b>> ELSE <<b, a>>
Trig ==
  /\ LET s == RSinDeg(RMul(a, 37))  c == RCosDeg(RMul(a, 37))
     IN RNear(RAdd(RSq(s), RSq(c)), "1", "1e-40", "0")
  /\ (RNonZero(a) \/ RNonZero(b)) =>
       LET t == RAtan2Deg(b, a)  r == RSqrt(RAdd(RSq(a), RSq(b)))
       IN RNear(RMul(r, RCosDeg(t)), a, "1e-40", "0") /\ RNear(RMul(r, RSinDeg(t)), b, "1e-40", "0")
  /\ RNear(RLn(RExp(a)), a, "1e-40", "0")
  /\ LET h == RSqrt(RAbs(a)) IN RNear(RSq(h), RAbs(a), "1e-40", "0")
Dist ==
  /\ RNear(RTCdf(RTQuantile("0.975", RAdd(RAbs(b), 1)), RAdd(RAbs(b), 1)), "0.975", "1e-12", "0")
  /\ RNear(RAdd(RNormCdf(a), RNormCdf(RNeg(a))), "1", "1e-14", "0")
ASSUME RNear(RTQuantile("0.975", 10), "2.22813885196", "1e-10", "0")
ASSUME RNear(RTCdf("1.5", 4), "0.896", "1e-12", "0")
ASSUME RNear(RNormCdf("1.96"), "0.9750021048517795", "1e-13", "0")
ASSUME RNear(RNormCdf("-3"), "0.0013498980316300933", "1e-14", "0")
ASSUME RNorm("1E-7") = "1/10000000"
ASSUME RNorm("-0.50") = "-1/2"
ASSUME RNorm("1/0") = Undef
ASSUME RNorm("none") = Undef
ASSUME RHalfUp("0.25", 1) = "3/10"
ASSUME RHalfUp("-0.25", 1) = "-1/5"
ASSUME SChars("ab") = <<"a", "b">>
ASSUME SLess("10", "2")
ASSUME SSplit("a;b", ";") = <<"a", "b">>
ASSUME RQuantile(<<"1", "2", "4">>, "0.75") = "3"
ASSUME RMod("-30", "360") = "330"
================================================================================
