-------------------------------- MODULE MC_Serial -------------------------------
EXTENDS Serial, Json
CONSTANTS
 N
VARIABLE v
Vals == {"none", "0", "1", "3"}
Init == \E n \in 1..N : v \in [1..n -> Vals]
Next == FALSE /\ UNCHANGED v
Rev(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]
Shift(s) == [k \in DOMAIN s |-> IF s[k] = "none" THEN "none" ELSE RSub("5", RMul("2", s[k]))]      \* 5 - 2x
Full == Valid(v) = v
(* correlation: one at lag zero, bounded without gaps, blind to direction, scale and origin *)
AcfLaws == AcfDefined(v, "correlation") =>
  LET a == Acf(v, "correlation", -1) b == Acf(Rev(v), "correlation", -1) c == Acf(Shift(v), "correlation", -1) IN
  /\ REq(a[1], "1") /\ Len(a) <= Len(v)
  /\ \A k \in DOMAIN a : /\ REq(a[k], b[k]) /\ REq(a[k], c[k])
                         /\ (Full => RLeq(RAbs(a[k]), "1"))
(* the full set of autocorrelations of a gapless series sums to minus one half *)
AcfSum == (Full /\ AcfDefined(v, "correlation")) => REq(RSum(Tail(Acf(v, "correlation", Len(v)))), "-1/2")
ArLaws == /\ RDefined(Ar1(v)) = RDefined(Ar1(Shift(v)))
          /\ RDefined(Ar1(v)) => REq(Ar1(v), Ar1(Shift(v)))
          /\ Ar1(v) = Ar1(Valid(v))
RunLaws == Valid(v) # <<>> => \A t \in {"median", "mean"} :
  LET g == Signs(v, t) h == Signs(Rev(v), t) u == Signs(Shift(v), t) IN
  /\ Runs(g) = Runs(h) /\ Runs(g) = Runs(u)
  /\ Runs(g) <= Len(g) /\ Count(g, "1") + Count(g, "-1") = Len(g)
  /\ (g # <<>> => RLeq("1", RunMean(g)) /\ RunMean(g) = RunMean(u))
  /\ (t = "median" => Count(g, "1") <= Len(Valid(v)) \div 2 /\ Count(g, "-1") <= Len(Valid(v)) \div 2)
  /\ (Len(g) > 1 => RGeq(RunVar(g), "0"))
(* the expected number of runs and its variance, against every order of the same signs *)
Orders(g) == {h \in [DOMAIN g -> {"1", "-1"}] : Count(h, "1") = Count(g, "1")}
RECURSIVE MeanOf(_, _, _)
MeanOf(S, k, n) == IF S = {} THEN "0" ELSE LET h == CHOOSE x \in S : TRUE IN RAdd(RDiv(IF k = 1 THEN Runs(h) ELSE Runs(h) * Runs(h), n), MeanOf(S \ {h}, k, n))
RunMoments == Valid(v) # <<>> => LET g == Signs(v, "mean") IN Len(g) >= 2 =>
  LET O == Orders(g) n == Cardinality(O) m == MeanOf(O, 1, n) IN REq(m, RunMean(g)) /\ REq(RSub(MeanOf(O, 2, n), RSq(m)), RunVar(g))
(* the sum is the mean times the count *)
SumLaw == LET d == Valid(v) IN Len(d) > 1 => RNear(Base("sum", d), RMul(Base("mean", d), Len(d)), "0.00000000000001", "0")
Emit == PrintT("CASE" \o ToJson([s |-> v]))
================================================================================
