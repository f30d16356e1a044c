---------------------------------- MODULE Tost ----------------------------------
(* Paired equivalence test: the t-test of the mean difference against zero, and the two one-sided tests against *)
(* the equivalence bounds (given in standard deviations of the difference).                                     *)
EXTENDS Conf, Sequences

(* x = [n, m1, m2, sd1, sd2, r, low, high, alpha] *)
Valid(x) == /\ x.n >= 2 /\ RGt(x.alpha, "0") /\ RLt(x.alpha, "1") /\ RGt(x.sd1, "0") /\ RGt(x.sd2, "0")
            /\ RLeq(x.r, "1") /\ RGeq(x.r, "-1")
Sdif(x) == RSqrt(RSub(RAdd(RSq(x.sd1), RSq(x.sd2)), RMul("2", RMul(x.r, RMul(x.sd1, x.sd2)))))
Se(x) == RDiv(Sdif(x), RSqrt(x.n))
Dif(x) == RSub(x.m1, x.m2)
Bounds(x) == <<RMul(x.low, Sdif(x)), RMul(x.high, Sdif(x))>>
Flat(x) == ~RNonZero(Se(x))                   \* the difference does not vary: no test
T(x) == RDiv(Dif(x), Se(x))
Ts(x) == <<RDiv(RSub(Dif(x), Bounds(x)[1]), Se(x)), RDiv(RSub(Dif(x), Bounds(x)[2]), Se(x))>>
Pdif(x) == RTTwoSided(T(x), x.n - 1)
Ps(x) == <<RTCdf(RNeg(Ts(x)[1]), x.n - 1), RTCdf(Ts(x)[2], x.n - 1)>>
Peqv(x) == RMax(Ps(x)[1], Ps(x)[2])
Ci(x, p) == LET h == RMul(RTQuantile(RSub("1", p), x.n - 1), Se(x)) IN <<RSub(Dif(x), h), RAdd(Dif(x), h)>>
CiTost(x) == Ci(x, x.alpha)
CiTtest(x) == Ci(x, RDiv(x.alpha, "2"))
Xlim(x) == LET c == CiTost(x) b == Bounds(x) w == RDiv(RMax(RSub(c[2], c[1]), RSub(b[2], b[1])), "10")
           IN <<RSub(RMin(c[1], b[1]), w), RAdd(RMax(c[2], b[2]), w)>>
Different(x) == RLt(Pdif(x), x.alpha)
Equivalent(x) == RLt(Ps(x)[1], x.alpha) /\ RLt(Ps(x)[2], x.alpha)
Outcome(d, q) == (IF d THEN "diff" ELSE "no_diff") \o (IF q THEN "_eqv" ELSE "_no_eqv")
Word(b) == IF b THEN "significant" ELSE "non-significant"

(* within rounding of the level either answer is right, but the labels must agree with one another *)
Tie(p, x) == RNear(p, x.alpha, "0.000000000001", "0.000000001")
Choices(p, x) == IF Tie(p, x) THEN {TRUE, FALSE} ELSE {RLt(p, x.alpha)}
TOk(o, v) == AgreeTol(o, v, Eps7, "0.000000001")
Pair(name, o, v) == IF Len(o) = 2 /\ TOk(o[1], v[1]) /\ TOk(o[2], v[2]) THEN {}
                    ELSE {name \o " got " \o ToString(o) \o " expected " \o RHalfUp(v[1], 9) \o ", " \o RHalfUp(v[2], 9)}
(* interval limits: the quantile function used in double precision is good to eight digits *)
Limits(name, o, v, x) ==
  LET w == RSub(CiTtest(x)[2], CiTtest(x)[1])  abs == RAdd(Eps7, RMul("0.00000001", w))
  IN IF Len(o) = 2 /\ AgreeTol(o[1], v[1], abs, "0.000000001") /\ AgreeTol(o[2], v[2], abs, "0.000000001") THEN {} ELSE Pair(name, o, v)
One(name, o, v) == IF TOk(o, v) THEN {} ELSE {Say(name, o, v)}
TostVerdict(x, o) ==
  IF ~Valid(x) THEN (IF o.err = "exc:SystemExit" THEN {} ELSE {"accepted bad input " \o o.err})
  ELSE IF o.err # "" THEN {"failed " \o o.err}
  ELSE One("dif", o.dif, Dif(x)) \union One("degrees", o.df, x.n - 1)
       \union Pair("bounds", o.eqbound, Bounds(x)) \union Limits("citost", o.ci_tost, CiTost(x), x)
       \union Limits("cittest", o.ci_ttest, CiTtest(x), x) \union Limits("xlim", o.xlim, Xlim(x), x)
       \union (IF Flat(x)
               THEN IF o.t = <<"none", "none">> /\ o.p = <<"none", "none">> /\ o.combined = "none" /\ o.test = "none" /\ o.tost = "none" THEN {}
                    ELSE {"outcome without variation " \o o.combined}
               ELSE Pair("t", o.t, Ts(x)) \union Pair("p", o.p, Ps(x))
                    \union (IF \E d \in Choices(Pdif(x), x), q \in Choices(Peqv(x), x) : o.combined = Outcome(d, q) /\ o.test = Word(d) /\ o.tost = Word(q) THEN {}
                            ELSE {"outcome " \o o.combined \o " " \o o.test \o " " \o o.tost \o " for p " \o RHalfUp(Pdif(x), 9) \o " and " \o RHalfUp(Peqv(x), 9) \o " at " \o x.alpha}))
(* the test of two samples *)
Corr(a, b) == LET ma == RMean(a) mb == RMean(b) IN
  RDiv(RSum([k \in DOMAIN a |-> RMul(RSub(a[k], ma), RSub(b[k], mb))]), RSqrt(RMul(RSS(a), RSS(b))))
Sample(a, b, low, high, alpha) == [n |-> Len(a), m1 |-> RMean(a), m2 |-> RMean(b), sd1 |-> RSqrt(RVarS(a)), sd2 |-> RSqrt(RVarS(b)),
  r |-> Corr(a, b), low |-> low, high |-> high, alpha |-> alpha]
TVerdict(e) == IF e.op = "tost" THEN TostVerdict(e.x, e.out)
               ELSE TostVerdict(Sample(e.a, e.b, "-0.001", "0.001", "0.05"), e.out)
================================================================================
