--------------------------------- MODULE Serial ---------------------------------
(* Serial-dependence statistics of a series whose values may be missing ("none").                              *)
EXTENDS Conf, Sequences

Here(x) == RDefined(x)
Valid(s) == SelectSeq(s, Here)

(* ------------------------------------------------------------ autocovariance and autocorrelation              *)
(* pairs k apart keep their places in the series; a pair with a missing value is left out                       *)
PairsAt(s, k) == {j \in 1..(Len(s) - k) : Here(s[j]) /\ Here(s[j + k])}
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN "0" ELSE LET j == CHOOSE x \in S : TRUE IN RAdd(f[j], SumOver(S \ {j}, f))
Cov(s, k) ==
  LET m == RMean(Valid(s))  P == PairsAt(s, k)
  IN RDiv(SumOver(P, [j \in P |-> RMul(RSub(s[j + k], m), RSub(s[j], m))]), Cardinality(P) + k)
(* lags 0 .. LagMax *)
LagMax(s, lag) == LET d == RToInt(RFloor(RAdd(RMul("10", RDiv(RLn(Len(s)), RLn("10"))), "0.0000000001")))
                      m == IF lag < 0 THEN d ELSE lag
                  IN IF m < Len(s) - 1 THEN m ELSE Len(s) - 1
AcfDefined(s, type) == Valid(s) # <<>> /\ (type = "covariance" \/ RNonZero(Cov(s, 0)))
Acf(s, type, lag) == [k \in 1..(LagMax(s, lag) + 1) |-> IF type = "covariance" THEN Cov(s, k - 1) ELSE RDiv(Cov(s, k - 1), Cov(s, 0))]

(* ------------------------------------------------------------ lag-1 regression                                *)
(* least-squares slope of each valid value on the one before it *)
Ar1(s) ==
  LET d == Valid(s)  n == Len(d) - 1
      x == SubSeq(d, 1, n)  y == SubSeq(d, 2, n + 1)
  IN IF n < 1 THEN "undef"
     ELSE RDiv(RSub(RDot(x, y), RDiv(RMul(RSum(x), RSum(y)), n)), RSub(RDot(x, x), RDiv(RSq(RSum(x)), n)))

(* ------------------------------------------------------------ standard errors                                 *)
(* inflation applies for coefficients in [0.3, 0.99) *)
Vif(ar) == IF RDefined(ar) /\ RGeq(ar, "0.3") /\ RLt(ar, "0.99") THEN RSqrt(RDiv(RAdd("1", ar), RSub("1", ar))) ELSE "1"
Flag(ar) == IF RDefined(ar) /\ (RGt(ar, "1") \/ RLt(ar, "-1")) THEN "1" ELSE "0"
Near(a, b) == RNear(a, b, "0.000000001", "0")
Vifs(ar) == IF RDefined(ar) /\ (Near(ar, "0.3") \/ Near(ar, "0.99")) THEN {"1", RSqrt(RDiv(RAdd("1", ar), RSub("1", ar)))} ELSE {Vif(ar)}
Flags(ar) == IF RDefined(ar) /\ (Near(ar, "1") \/ Near(ar, "-1")) THEN {"0", "1"} ELSE {Flag(ar)}
Iqr(d) == LET t == RSort(d) IN RSub(RQuantile(t, "3/4"), RQuantile(t, "1/4"))
(* spread of the estimate without inflation *)
Base(kind, d) ==
  LET n == Len(d) IN
  CASE kind = "mean" -> RSqrt(RDiv(RVarS(d), n))
    [] kind = "sum" -> RSqrt(RMul(RVarS(d), n))
    [] OTHER -> RDiv(RMul(Iqr(d), RSqrt(RDiv(RPi, "2"))), RMul("1.349", RSqrt(n)))
Usable(kind, d) == Len(d) > 2 /\ (IF kind \in {"mean", "sum"} THEN RNonZero(RVarS(d)) ELSE RGt(Iqr(d), "0"))
StdErrBad(kind, s, o) ==
  LET d == Valid(s)  ar == Ar1(s)  u == Usable(kind, d)  inflate == kind # "medianplain"
      tol(a, b) == AgreeTol(a, b, "0.000000000001", "0.00000001")
  IN (IF u THEN IF \E f \in (IF inflate THEN Vifs(ar) ELSE {"1"}) : tol(o[1], RMul(f, Base(kind, d))) THEN {}
                ELSE {Say("stderr " \o kind, o[1], RMul(IF inflate THEN Vif(ar) ELSE "1", Base(kind, d)))}
      ELSE IF tol(o[1], "0") THEN {} ELSE {Say("stderr " \o kind, o[1], "0")})
     \union (IF o[2] \in (IF u /\ inflate THEN Flags(ar) ELSE {"0"}) THEN {} ELSE {"flag " \o kind \o " is " \o o[2] \o " for coefficient " \o (IF RDefined(ar) THEN RHalfUp(ar, 8) ELSE "none")})
     \union (LET a == IF u /\ inflate /\ RDefined(ar) THEN ar ELSE "0" IN IF tol(o[3], a) THEN {} ELSE {Say("coefficient " \o kind, o[3], a)})
     \union (IF REq(o[4], Len(d)) THEN {} ELSE {"count " \o kind \o " is " \o o[4]})

(* ------------------------------------------------------------ runs test                                       *)
Cut(s, thr) == LET d == RSort(Valid(s)) n == Len(d) IN
  IF thr = "mean" THEN RMean(d)
  ELSE IF n % 2 = 1 THEN d[(n + 1) \div 2] ELSE RDiv(RAdd(d[n \div 2], d[n \div 2 + 1]), "2")
Signs(s, thr) == LET c == Cut(s, thr) d == SelectSeq(Valid(s), LAMBDA x : ~REq(x, c)) IN [k \in DOMAIN d |-> RSgn(RSub(d[k], c))]
Runs(g) == IF g = <<>> THEN 0 ELSE 1 + Cardinality({k \in 2..Len(g) : g[k] # g[k - 1]})
Count(g, w) == Cardinality({k \in DOMAIN g : g[k] = w})
RunMean(g) == LET a == Count(g, "1") b == Count(g, "-1") IN RAdd("1", RDiv(2 * a * b, a + b))
RunVar(g) == LET a == Count(g, "1") b == Count(g, "-1") n == a + b IN RDiv(2 * a * b * (2 * a * b - n), n * n * (n - 1))
RunStat(g) == IF RNonZero(RunVar(g)) THEN RDiv(RSub(Runs(g), RunMean(g)), RSqrt(RunVar(g))) ELSE "undef"
RunP(g, alt) == LET z == RunStat(g) p == RNormCdf(z) q == RNormCdf(RNeg(z)) IN
  IF ~RDefined(z) THEN "undef" ELSE CASE alt = "left.sided" -> p [] alt = "right.sided" -> q [] OTHER -> RMul("2", RMin(p, q))
(* everything is missing for a series without values *)
RunsBad(s, alt, thr, o) ==
  LET none == Valid(s) = <<>>  g == IF none THEN <<>> ELSE Signs(s, thr)
      ok(a, b) == AgreeTol(a, b, "0.0000000001", "0.00000001")
      one(n, a, b) == IF ok(a, IF none THEN "undef" ELSE b) THEN {} ELSE {Say("runs " \o n, a, b)}
  IN one("statistic", o.statistic, RunStat(g)) \union one("pvalue", o.p_value, RunP(g, alt))
     \union (IF ok(o.runs, IF none THEN "undef" ELSE ToString(Runs(g))) THEN {} ELSE {"runs number " \o o.runs})
     \union one("mean", o.mean_value, RunMean(g)) \union one("variance", o.variance, RunVar(g))

(* ------------------------------------------------------------ revision statistics                             *)
(* the values of the revisions one after another in order of first appearance, a gap between revisions *)
RECURSIVE Ids(_)
Ids(rows) == IF rows = <<>> THEN <<>> ELSE LET h == Head(rows).id IN <<h>> \o Ids(SelectSeq(rows, LAMBDA r : r.id # h))
RECURSIVE Chain(_, _)
Chain(rows, ids) ==
  IF ids = <<>> THEN <<>>
  ELSE LET rs == SelectSeq(rows, LAMBDA r : r.id = Head(ids))  v == [k \in DOMAIN rs |-> rs[k].value]
       IN v \o (IF Len(ids) > 1 THEN <<"none">> \o Chain(rows, Tail(ids)) ELSE <<>>)
Two == "0.0050000001"
RevBad(rows, lag, o) ==
  LET s == Chain(rows, Ids(rows))
      r == IF AcfDefined(s, "correlation") THEN Acf(s, "correlation", lag)[LagMax(s, lag) + 1] ELSE "undef"
      p == IF s = <<>> THEN "undef" ELSE RDiv("0.06270678", RSqrt(Len(s)))
      w == IF Valid(s) = <<>> THEN "undef" ELSE RunP(Signs(s, "median"), "left.sided")
      none == Valid(s) = <<>>
  IN (IF AgreeTol(o.r, r, Two, "0") THEN {} ELSE {Say("revision correlation", o.r, r)})
     \union (IF none \/ AgreeTol(o.p, p, Two, "0") THEN {} ELSE {Say("revision bound", o.p, p)})
     \union (IF AgreeTol(o.ww, w, Two, "0") THEN {} ELSE {Say("revision runs", o.ww, w)})

(* series for which the runs test is not defined: no values, or too few on one of the sides *)
NoValues(s) == Valid(s) = <<>>
OneSided(s, thr) == ~NoValues(s) /\ ~RNonZero(RunVar(Signs(s, thr)))
SerialVerdict(e) ==
  IF e.op = "runs" /\ e.err # "" /\ NoValues(e.s) THEN {"empty-" \o e.err}
  ELSE IF e.op = "runs" /\ e.err = "" /\ e.s = <<>> /\ e.out.mean_value = "nokey" THEN {"empty-misnamed mean_value"}
  ELSE IF e.op = "runs" /\ e.err # "" /\ OneSided(e.s, e.thr) THEN {"onesided-" \o e.err}
  ELSE IF "err" \in DOMAIN e /\ e.err # "" THEN {"failed " \o e.op \o " " \o e.err}
  ELSE CASE e.op = "acf" ->
         IF ~AcfDefined(e.s, e.type) THEN (IF e.out = <<"none">> THEN {} ELSE {"acf not missing " \o ToString(e.out)})
         ELSE LET v == Acf(e.s, e.type, e.lag) IN
              IF Len(e.out) # Len(v) THEN {"acf lags " \o ToString(Len(e.out)) \o " expected " \o ToString(Len(v))}
              ELSE UNION {IF AgreeTol(e.out[k], v[k], "0.0000000001", "0.00000001") THEN {} ELSE {Say("acf lag " \o ToString(k - 1), e.out[k], v[k])} : k \in DOMAIN v}
       [] e.op = "ar1" -> IF AgreeTol(e.out, Ar1(e.s), "0.000000001", "0.00000001") THEN {} ELSE {Say("ar1", e.out, Ar1(e.s))}
       [] e.op = "stderr" -> StdErrBad(e.kind, e.s, e.out)
       [] e.op = "runs" -> RunsBad(e.s, e.alt, e.thr, e.out)
       [] OTHER -> RevBad(e.rows, e.lag, e.out)
================================================================================
