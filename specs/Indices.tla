--------------------------------- MODULE Indices --------------------------------
(* Indices of the Madden-Julian oscillation and of equatorial waves: running anomalies, band-pass filters as        *)
(* convolutions, least squares coefficients of patterns, projections and their activity.                            *)
EXTENDS Conf, Integers, Sequences, FiniteSets, TLC
Close(o, v) == AgreeTol(o, v, "0.0000001", "0.0000001")
CloseSeq(q, w) == Len(q) = Len(w) /\ \A k \in DOMAIN q : Close(q[k], w[k])
Str(n) == ToString(n)
(* nested tables are evaluated once, at every level *)
Tab2(t) == TLCEval([i \in DOMAIN t |-> TLCEval(t[i])])
Tab3(t) == TLCEval([i \in DOMAIN t |-> Tab2(t[i])])
There(q) == SelectSeq(q, LAMBDA x : x # "none")
(* anomalies are missing where the value is *)
Minus(x, m) == IF x = "none" THEN "undef" ELSE RSub(x, m)

(* ------------------------------------------------------------ anomalies                                       *)
(* n is the number of steps in 120 days; the mean is over the current step and up to n before it *)
Start(i, n) == IF i - n < 1 THEN 1 ELSE i - n
Running(q, n) == [i \in DOMAIN q |-> Minus(q[i], RMean(There(SubSeq(q, Start(i, n), i))))]
Centred(q) == LET m == RMean(q) IN TLCEval([k \in DOMAIN q |-> RSub(q[k], m)])
SelectIdx(q, Test(_)) == LET RECURSIVE go(_) go(k) == IF k > Len(q) THEN <<>> ELSE (IF Test(k) THEN <<q[k]>> ELSE <<>>) \o go(k + 1) IN go(1)
(* departures from the mean of the same calendar day *)
Seasonal(q, day) == [i \in DOMAIN q |-> Minus(q[i], RMean(There(SelectIdx(q, LAMBDA k : day[k] = day[i]))))]
Anomalies(q, day, year) == IF year THEN Seasonal(q, day) ELSE LET m == RMean(There(q)) IN [i \in DOMAIN q |-> Minus(q[i], m)]
Variance(cols) == RMean(There([k \in DOMAIN cols |-> LET v == There(cols[k]) IN IF v = <<>> THEN "none" ELSE RVarP(v)]))

(* ------------------------------------------------------------ filters                                         *)
Residual(q) ==
  IF Len(q) = 1 THEN <<"0">>
  ELSE LET t == Centred([k \in DOMAIN q |-> Str(k)])  x == Centred(q)  b == RDiv(RDot(t, x), RDot(t, t))
       IN [k \in DOMAIN q |-> RSub(x[k], RMul(b, t[k]))]
(* half a cosine over the first w of n values (counted from zero), the same at the end *)
Bell(j, w) == RDiv(RSub("1", RCosDeg(RDiv(Str(180 * j), Str(w)))), "2")
Weight(j, n, w) == RMul(IF j < w THEN Bell(j, w) ELSE "1", IF j >= n - w THEN Bell(n - 1 - j, w) ELSE "1")
Tapered(q, w) == [k \in DOMAIN q |-> RMul(q[k], Weight(k - 1, Len(q), w))]
(* sum of cos(f*theta + phi) for whole f from a to b; angles in degrees *)
CosSum(a, b, theta, phi) ==
  IF b < a THEN "0"
  ELSE IF RIsInt(RDiv(theta, "360")) THEN RMul(Str(b - a + 1), RCosDeg(phi))
  ELSE LET half == RDiv(theta, "2")
       IN RDiv(RSub(RSinDeg(RAdd(RMul(Str(2 * b + 1), half), phi)), RSinDeg(RAdd(RMul(Str(2 * a - 1), half), phi))), RMul("2", RSinDeg(half)))
RECURSIVE CosSumSlow(_, _, _, _)
CosSumSlow(a, b, theta, phi) == IF b < a THEN "0" ELSE RAdd(RCosDeg(RAdd(RMul(Str(a), theta), phi)), CosSumSlow(a + 1, b, theta, phi))
Ceil(x) == RNeg(RFloor(RNeg(x)))
(* harmonics of nt steps of dt days whose period lies between pmin and pmax *)
LowBin(nt, dt, pmax) == RToInt(Ceil(RDiv(RMul(Str(nt), dt), pmax)))
HighBin(nt, dt, pmin) == RToInt(RFloor(RDiv(RMul(Str(nt), dt), pmin)))
(* eastward wavenumber of the k-th of nl coefficients *)
Wave(k, nl) == IF 2 * k <= nl THEN -k ELSE nl - k
KeptWaves(nl, lo, hi) == {k \in 0..(nl - 1) : lo <= Wave(k, nl) /\ Wave(k, nl) <= hi}
SeqOf(S) == LET RECURSIVE go(_) go(T) == IF T = {} THEN <<>> ELSE LET a == CHOOSE x \in T : \A y \in T : x <= y IN <<a>> \o go(T \ {a}) IN go(S)
(* response at distance tau steps and lam longitudes *)
Kernel(tau, lam, nt, nl, a, b, waves) ==
  LET ks == SeqOf(waves)
  IN RMul(RDiv("2", Str(nt * nl)), RSum([j \in DOMAIN ks |-> CosSum(a, b, RDiv(Str(360 * tau), Str(nt)), RDiv(Str(360 * ks[j] * lam), Str(nl)))]))
(* x[l][t] for the longitudes of one latitude: detrended, tapered, padded to nt, filtered *)
Prepared(x, nt, w) == Tab2([l \in DOMAIN x |-> LET r == TLCEval(Residual(x[l])) IN [t \in DOMAIN r |-> RHalfUp(RMul(r[t], Weight(t - 1, nt, w)), 30)]])
Filtered(x, nt, dt, w, pmin, pmax, lo, hi) ==
  LET y == Prepared(x, nt, w)
      nl == Len(x)
      n == Len(x[1])
      a == LowBin(nt, dt, pmax)
      b == HighBin(nt, dt, pmin)
      waves == KeptWaves(nl, lo, hi)
      ker == Tab2([tau \in (1 - n)..(n - 1) |-> [lam \in (1 - nl)..(nl - 1) |-> RHalfUp(Kernel(tau, lam, nt, nl, a, b, waves), 30)]])
  IN Tab2([l \in 1..nl |-> [t \in 1..n |-> RHalfUp(RSum([m \in 1..nl |-> RSum([s \in 1..n |-> RMul(y[m][s], ker[t - s][l - m])])]), 30)]])
(* in time only *)
BandPassed(q, nt, dt, w, pmin, pmax) ==
  LET y == Prepared(<<q>>, nt, w)[1]
      a == LowBin(nt, dt, pmax)
      b == HighBin(nt, dt, pmin)
      n == Len(q)
      ker == TLCEval([tau \in (1 - n)..(n - 1) |-> RHalfUp(Kernel(tau, 0, nt, 1, a, b, {0}), 30)])
  IN [t \in 1..n |-> RSum([s \in 1..n |-> RMul(y[s], ker[t - s])])]

(* ------------------------------------------------------------ coefficients                                    *)
(* least squares coefficients of v in the plane of e and f *)
Coefs(v, e, f) ==
  LET ee == RDot(e, e)  ff == RDot(f, f)  ef == RDot(e, f)  ve == RDot(v, e)  vf == RDot(v, f)
      det == RSub(RMul(ee, ff), RSq(ef))
  IN <<RDiv(RSub(RMul(ve, ff), RMul(vf, ef)), det), RDiv(RSub(RMul(vf, ee), RMul(ve, ef)), det)>>
Scaled(q, c) == [k \in DOMAIN q |-> RDiv(q[k], c)]

(* ------------------------------------------------------------ verdicts                                        *)
RunningVerdict(e) == IF CloseSeq(e.out, Running(e.q, e.n)) THEN {} ELSE {"anomaly from the running mean of " \o Str(e.n) \o " steps: " \o ToString(e.out)}
VarianceVerdict(e) == IF Close(e.out, Variance(e.cols)) THEN {} ELSE {Say("variance", e.out, Variance(e.cols))}
TaperVerdict(e) == IF CloseSeq(e.out, Tapered(e.q, e.w)) THEN {} ELSE {"taper over " \o Str(e.w) \o " of " \o ToString(e.q) \o " is " \o ToString(e.out)}
FilterVerdict(e) ==
  (IF e.kept THEN {} ELSE {"filter changed its input"})
  \union LET want == Filtered(e.x, e.nt, e.dt, e.w, e.pmin, e.pmax, e.lo, e.hi) IN
         {"filter at longitude " \o Str(l) \o " is " \o ToString(e.out[l]) \o " expected " \o ToString([t \in DOMAIN want[l] |-> RHalfUp(want[l][t], 10)]) : l \in {k \in DOMAIN want : ~CloseSeq(e.out[k], want[k])}}
BandVerdict(e) ==
  (IF e.kept THEN {} ELSE {"band changed its input"})
  \union LET want == BandPassed(e.q, e.nt, e.dt, e.w, e.pmin, e.pmax) IN
         IF CloseSeq(e.out, want) THEN {} ELSE {"band passed " \o ToString(e.out) \o " expected " \o ToString([t \in DOMAIN want |-> RHalfUp(want[t], 10)])}
(* v[t] the vectors, a and b the two patterns of each time *)
RegressVerdict(e) == {"regress time " \o Str(t) \o " gives " \o ToString(e.out[t]) : t \in {k \in DOMAIN e.v : ~CloseSeq(e.out[k], Coefs(e.v[k], e.a[k], e.b[k]))}}
(* three variables side by side, each an anomaly from its running mean over its norm: f[variable][longitude][time] *)
RmmVector(e, t) == LET m == Len(e.f[1]) IN TLCEval([k \in 1..(3 * m) |-> LET j == ((k - 1) \div m) + 1 IN RDiv(Running(e.f[j][((k - 1) % m) + 1], e.n)[t], e.norm[j])])
RmmVerdict(e) ==
  IF e.refuse THEN (IF e.err # "" THEN {} ELSE {"rmm accepted other longitudes than those of the patterns"})
  ELSE IF e.err # "" THEN {"rmm failed " \o e.err}
  ELSE {"rmm time " \o Str(t) \o " gives " \o ToString(e.out[t]) : t \in {k \in DOMAIN e.out :
          LET c == Coefs(RmmVector(e, k), e.e1, e.e2) IN ~CloseSeq(e.out[k], <<RDiv(c[1], e.pcn[1]), RDiv(c[2], e.pcn[2])>>)}}
       \union (IF Len(e.out) = Len(e.f[1][1]) THEN {} ELSE {"rmm length"})
       \union (IF e.kept THEN {} ELSE {"rmm changed its input"})
(* x[lat][lon][time]; patterns of the day of the year of each time *)
OmiVerdict(e) ==
  IF e.refuse THEN (IF e.err # "" THEN {} ELSE {"omi accepted another grid than that of the patterns"})
  ELSE IF e.err # "" THEN {"omi failed " \o e.err}
  ELSE LET fil == Tab3([j \in DOMAIN e.x |-> Filtered(e.x[j], e.nt, e.dt, e.w, "20", "96", -720, 720)])
           nl == Len(e.x[1])
           vec(t) == [k \in 1..(nl * Len(e.x)) |-> fil[((k - 1) \div nl) + 1][((k - 1) % nl) + 1][t]]
           n == Len(e.x[1][1])
           c == TLCEval([t \in 1..n |-> Coefs(TLCEval(vec(t)), e.e1[t], e.e2[t])])
           sd == RSqrt(RVarP([t \in 1..n |-> c[t][1]]))
       IN {"omi time " \o Str(t) \o " gives " \o ToString(e.out[t]) : t \in {k \in 1..n : ~\A j \in 1..2 : RNear(e.out[k][j], RDiv(c[k][j], sd), "0.00001", "0.00001")}}
          \union (IF e.kept THEN {} ELSE {"omi changed its input"})
SeasonVerdict(e) == IF CloseSeq(e.out, Anomalies(e.q, e.day, e.year)) THEN {} ELSE {"season anomalies of " \o ToString(e.q) \o " are " \o ToString(e.out)}
(* projections of the anomalies a[time] onto the patterns p[time][number] *)
ProjectVerdict(e) == {"project time " \o Str(t) \o " gives " \o ToString(e.out[t]) : t \in {k \in DOMAIN e.a : ~CloseSeq(e.out[k], [j \in DOMAIN e.p[k] |-> RDot(e.a[k], e.p[k][j])])}}
(* activity from raw data q[point][time] *)
ActivityVerdict(e) ==
  LET an == Tab2([p \in DOMAIN e.q |-> Anomalies(e.q[p], e.day, e.year)])
      at(t) == [p \in DOMAIN an |-> an[p][t]]
      act(t) == LET a == at(t)  pr == [j \in DOMAIN e.p[t] |-> RDot(a, e.p[t][j])] IN RSqrt(RDot(pr, pr))
  IN {"activity at time " \o Str(t) \o " " \o Say("is", e.out[t], act(t)) : t \in {k \in DOMAIN e.out : ~Close(e.out[k], act(k))}}
     \union (IF Len(e.out) = Len(e.day) THEN {} ELSE {"activity length"})
     \union (IF e.labels[1] = e.labels[2] THEN {} ELSE {"activity labelled " \o ToString(e.labels[1])})
Corr(a, b) == LET x == Centred(a)  y == Centred(b) IN RDiv(RDot(x, y), RSqrt(RMul(RDot(x, x), RDot(y, y))))
(* act[lead][line]: lines after the first are compared with the first *)
SkillVerdict(e) ==
  (IF e.kept THEN {} ELSE {"skill changed its input"})
  \union {"skill of lead " \o Str(q[1]) \o " line " \o Str(q[2]) \o " is " \o e.out[q[1]][q[2]] : q \in {z \in (DOMAIN e.act) \X (1..(Len(e.act[1]) - 1)) : ~Close(e.out[z[1]][z[2]], Corr(e.act[z[1]][z[2] + 1], e.act[z[1]][1]))}}
(* singular vectors of the rows x: u orthonormal, patterns orthonormal, x'u = s p for the part of the variance s^2/total *)
Col(m, k) == [t \in DOMAIN m |-> m[t][k]]
Standard(x) == LET c == Tab2([p \in DOMAIN x[1] |-> LET d == Centred(Col(x, p))  s == RSqrt(RDiv(RDot(d, d), Str(Len(x)))) IN [t \in DOMAIN x |-> RDiv(d[t], s)]])
               IN [t \in DOMAIN x |-> [p \in DOMAIN x[1] |-> c[p][t]]]
PatternVerdict(e) ==
  LET x == Tab2(IF e.cov THEN e.x ELSE Standard(e.x))
      K == Len(e.pat)
      total == RSum([t \in DOMAIN x |-> RDot(x[t], x[t])])
      eps == RMul("0.000001", RAdd(total, "1"))
      eye(a, b, j, k) == RNear(RDot(a, b), IF j = k THEN "1" ELSE "0", "0.000001", "0")
      s(k) == RSqrt(RMul(e.share[k], total))
  IN {"patterns " \o ToString(q) \o " are not orthonormal" : q \in {z \in (1..K) \X (1..K) : ~eye(e.pat[z[1]], e.pat[z[2]], z[1], z[2])}}
     \union {"pattern series " \o ToString(q) \o " are not orthonormal" : q \in {z \in (1..K) \X (1..K) : ~eye(Col(e.u, z[1]), Col(e.u, z[2]), z[1], z[2])}}
     \union {"pattern " \o Str(k) \o " does not explain its share" : k \in {j \in 1..K : \E t \in DOMAIN x : ~RNear(RDot(x[t], e.pat[j]), RMul(s(j), e.u[t][j]), eps, "0")}}
     \union {"pattern " \o Str(k) \o " and its series do not belong together" : k \in {j \in 1..K : \E p \in DOMAIN x[1] : ~RNear(RDot(Col(x, p), Col(e.u, j)), RMul(s(j), e.pat[j][p]), eps, "0")}}
     \union {"pattern order at " \o Str(k) : k \in {j \in 1..(K - 1) : RLt(RAdd(e.share[j], "0.000001"), e.share[j + 1])}}

IndicesVerdict(e) ==
  IF e.op = "rmm" THEN RmmVerdict(e) ELSE IF e.op = "omi" THEN OmiVerdict(e)
  ELSE IF e.err # "" THEN {e.op \o " failed " \o e.err}
  ELSE CASE e.op = "running" -> RunningVerdict(e) [] e.op = "variance" -> VarianceVerdict(e) [] e.op = "taper" -> TaperVerdict(e) [] e.op = "filter" -> FilterVerdict(e)
         [] e.op = "band" -> BandVerdict(e) [] e.op = "regress" -> RegressVerdict(e) [] e.op = "season" -> SeasonVerdict(e) [] e.op = "project" -> ProjectVerdict(e)
         [] e.op = "activity" -> ActivityVerdict(e) [] e.op = "skill" -> SkillVerdict(e) [] e.op = "pattern" -> PatternVerdict(e)
         [] OTHER -> {"unknown " \o e.op}
================================================================================
