---------------------------------- MODULE Corr ---------------------------------
(* Association of two paired series: the coefficient under five definitions, what is derived from it (share of    *)
(* variance, significance, interval, power, weight of evidence), and the removal of incomplete pairs.             *)
EXTENDS Conf

Gone == {"nan", "none"}
(* ---- incomplete pairs ---- *)
RECURSIVE PickFrom(_, _, _)
PickFrom(s, keep, k) == IF k > Len(s) THEN <<>> ELSE (IF k \in keep THEN <<s[k]>> ELSE <<>>) \o PickFrom(s, keep, k + 1)
Pick(s, keep) == PickFrom(s, keep, 1)
Known(s) == {k \in DOMAIN s : s[k] \notin Gone}
(* a line of a table is kept when all its values are known *)
KnownRows(t) == {k \in DOMAIN t : \A j \in DOMAIN t[k] : t[k][j] \notin Gone}
KnownCols(t) == {j \in DOMAIN t[1] : \A k \in DOMAIN t : t[k][j] \notin Gone}
PickCols(t, keep) == [k \in DOMAIN t |-> Pick(t[k], keep)]

(* ---- coefficients ---- *)
Cut(x) == RHalfUp(x, 40)
Pearson(x, y) ==
  LET mx == RMean(x)  my == RMean(y)
      dx == TLCEval([k \in DOMAIN x |-> RSub(x[k], mx)])  dy == TLCEval([k \in DOMAIN y |-> RSub(y[k], my)])
  IN RDiv(RDot(dx, dy), RSqrt(RMul(RDot(dx, dx), RDot(dy, dy))))
Below(s, k) == Cardinality({j \in DOMAIN s : RLt(s[j], s[k])})
Ties(s, k) == Cardinality({j \in DOMAIN s : REq(s[j], s[k])})
Rank(s) == TLCEval([k \in DOMAIN s |-> RDiv(2 * Below(s, k) + Ties(s, k) + 1, 2)])
Spearman(x, y) == Pearson(Rank(x), Rank(y))
Pairs(x) == {p \in (1..Len(x)) \X (1..Len(x)) : p[1] < p[2]}
Sgn(s, p) == IF REq(s[p[1]], s[p[2]]) THEN 0 ELSE IF RLt(s[p[1]], s[p[2]]) THEN 1 ELSE -1
Kendall(x, y) ==
  LET con == Cardinality({p \in Pairs(x) : Sgn(x, p) * Sgn(y, p) = 1})
      dis == Cardinality({p \in Pairs(x) : Sgn(x, p) * Sgn(y, p) = -1})
      nx == Cardinality({p \in Pairs(x) : Sgn(x, p) # 0})  ny == Cardinality({p \in Pairs(x) : Sgn(y, p) # 0})
  IN RDiv(con - dis, RSqrt(nx * ny))
Median(s) == RQuantile(RSort(s), "1/2")
Deviations(s) == LET m == Median(s) IN TLCEval([k \in DOMAIN s |-> RSub(s[k], m)])
Mad(s) == LET d == Deviations(s) IN Median([k \in DOMAIN d |-> RAbs(d[k])])
(* biweight: deviations from the median, faded out smoothly up to c median absolute deviations *)
Biweighted(s, c) ==
  LET d == Deviations(s)  m == RMul(c, Mad(s))
  IN TLCEval([k \in DOMAIN s |-> LET u == RDiv(d[k], m) IN
       IF RLt(RAbs(u), "1") THEN RMul(d[k], RSq(RSub("1", RSq(u)))) ELSE "0"])
Cosine(a, b) == RDiv(RDot(a, b), RSqrt(RMul(RDot(a, a), RDot(b, b))))
Bicor(x, y, c) == IF REq(Mad(x), "0") \/ REq(Mad(y), "0") THEN Undef ELSE Cosine(Biweighted(x, c), Biweighted(y, c))
(* percentage bend: deviations from a location that bends the outer share of the values, clipped to one omega *)
Omega(s, beta) == LET d == Deviations(s)  w == RSort([k \in DOMAIN d |-> RAbs(d[k])])
                  IN w[RToInt(RFloor(RMul(RSub("1", beta), Len(s))))]
Bent(s, beta) ==
  LET w == Omega(s, beta)  d == Deviations(s)
      lo == {k \in DOMAIN s : RLt(d[k], RNeg(w))}  hi == {k \in DOMAIN s : RGt(d[k], w)}
      mid == {k \in DOMAIN s : k \notin lo \union hi}
      loc == RDiv(RAdd(RSum(Pick(s, mid)), RMul(w, Cardinality(hi) - Cardinality(lo))), Cardinality(mid))
  IN TLCEval([k \in DOMAIN s |-> RMax("-1", RMin("1", RDiv(RSub(s[k], loc), w)))])
BendDefined(s, beta) == RNonZero(Omega(s, beta))
PercBend(x, y, beta) == Cosine(Bent(x, beta), Bent(y, beta))

CoefBy(x, y, m, c, beta) == Cut(CASE m = "pearson" -> Pearson(x, y) [] m = "spearman" -> Spearman(x, y) [] m = "kendall" -> Kendall(x, y)
                       [] m = "bicor" -> Bicor(x, y, c) [] m = "percbend" -> PercBend(x, y, beta))
Coef(x, y, m) == CoefBy(x, y, m, "9", "1/5")

(* Shepherd's pi: the rank coefficient of the pairs that are not outliers.  Whether a pair is one depends on random resamples; *)
(* it certainly is when it lies very far from all others, and certainly is not when it lies within the bulk of what remains.  *)
Mahalanobis(x, y, k, among) ==
  LET a == Pick(x, among)  b == Pick(y, among)  n == Len(a)
      ma == RMean(a)  mb == RMean(b)  dx == RSub(x[k], ma)  dy == RSub(y[k], mb)
      da == TLCEval([j \in DOMAIN a |-> RSub(a[j], ma)])  db == TLCEval([j \in DOMAIN b |-> RSub(b[j], mb)])
      saa == RDot(da, da)  sbb == RDot(db, db)  sab == RDot(da, db)
      num == RAdd(RSub(RMul(sbb, RSq(dx)), RMul("2", RProd3(sab, dx, dy))), RMul(saa, RSq(dy)))
  IN RDiv(RMul(n - 1, num), RSub(RMul(saa, sbb), RSq(sab)))
FarOut(x, y) == {k \in DOMAIN x : RGt(Mahalanobis(x, y, k, DOMAIN x \ {k}), "200")}
Settled(x, y) == LET far == FarOut(x, y)  core == DOMAIN x \ far
                 IN Cardinality(core) >= 12 /\ Cardinality(far) <= 1 /\ \A k \in core : RLt(Mahalanobis(x, y, k, core \ {k}), "3.5")

(* ---- derived from a coefficient r of n pairs ---- *)
Adjusted(r, n) == RSub("1", RDiv(RMul(RSub("1", RSq(r)), n - 1), n - 3))
PVal(r, n) == RTTwoSided(RMul(r, RSqrt(RDiv(n - 2, RSub("1", RSq(r))))), n - 2)
Atanh(r) == RDiv(RLn(RDiv(RAdd("1", r), RSub("1", r))), "2")
Tanh(z) == LET e == RExp(RMul("2", z)) IN RDiv(RSub(e, "1"), RAdd(e, "1"))
(* two-sided standard normal critical values *)
Crit(conf) == CASE conf = "0.9" -> "1.6448536269514722" [] conf = "0.95" -> "1.959963984540054" [] conf = "0.99" -> "2.5758293035489004"
Interval(r, n, conf) == LET z == Atanh(r)  h == RDiv(Crit(conf), RSqrt(n - 3)) IN <<Tanh(RSub(z, h)), Tanh(RAdd(z, h))>>
(* a standardised difference d of means: two groups, or one (paired) *)
EffectInterval(d, nx, ny, one, conf) ==
  LET se == IF one THEN RSqrt(RAdd(RDiv("1", nx), RDiv(RSq(d), 2 * nx)))
            ELSE RSqrt(RAdd(RDiv(nx + ny, nx * ny), RDiv(RSq(d), 2 * (nx + ny))))
      h == RMul(RTQuantile(RDiv(RAdd("1", conf), "2"), IF one THEN nx - 1 ELSE nx + ny - 2), se)
  IN <<RSub(d, h), RAdd(d, h)>>
(* power of the test of no association at level alpha; n may be fractional *)
Power(r, n, alpha, two) ==
  LET a == RAbs(r)
      t == RTQuantile(RSub("1", IF two THEN RDiv(alpha, "2") ELSE alpha), RSub(n, "2"))
      rc == RSqrt(RDiv(RSq(t), RAdd(RSq(t), RSub(n, "2"))))
      z == RAdd(Atanh(a), RDiv(a, RMul("2", RSub(n, "1"))))
      zc == Cut(Atanh(Cut(rc)))  w == RSqrt(RSub(n, "3"))
      up == RNormCdf(RMul(RSub(z, zc), w))
  IN IF two THEN RAdd(up, RNormCdf(RMul(RSub(RNeg(z), zc), w))) ELSE up
(* Bayes factor for an association against none, uniform prior: sqrt(pi)/2 G((n+1)/2)/G((n+2)/2) F((n-1)/2, (n-1)/2; (n+2)/2; r^2) *)
RECURSIVE Fact(_)
Fact(k) == IF k <= 1 THEN "1" ELSE RMul(k, Fact(k - 1))
RECURSIVE DFact(_)
DFact(k) == IF k <= 1 THEN "1" ELSE RMul(k, DFact(k - 2))
GammaPart(n) == IF n % 2 = 1 THEN RDiv(RMul(Fact((n - 1) \div 2), RPow("2", (n + 1) \div 2)), DFact(n))
                ELSE RDiv(RMul(RPi, DFact(n - 1)), RMul(RPow("2", n \div 2), Fact(n \div 2)))
RECURSIVE Hyper(_, _, _, _, _, _)
Hyper(a, c, z, k, term, sum) ==
  IF RLt(term, "0.000000000001") \/ k > 400 THEN sum
  ELSE LET nxt == Cut(RDiv(RMul(RMul(term, z), RSq(RAdd(a, k))), RMul(RAdd(c, k), k + 1)))
       IN Hyper(a, c, z, k + 1, nxt, RAdd(sum, nxt))
Bayes(r, n) == RDiv(RMul(GammaPart(n), Hyper(RDiv(n - 1, 2), RDiv(n + 2, 2), Cut(RSq(r)), 0, "1", "1")), "2")

(* ---- verdict on one recorded call ---- *)
Near(o, v) == AgreeTol(o, v, "0.00000001", "0.0000001")
Wrong(name, ok, o, v) == IF ok THEN {} ELSE {Say(name, o, v)}
AllGone == {"r", "r2", "adj_r2", "p", "power"}
Association(e) ==
  LET keep == Known(e.x) \intersect Known(e.y)
      x == Pick(e.x, keep)  y == Pick(e.y, keep)  n == Len(x)
      flat == (\A k \in DOMAIN x : REq(x[k], x[1])) \/ (\A k \in DOMAIN y : REq(y[k], y[1]))
  IN IF e.err # "" THEN {"corr failed " \o e.err}
     ELSE IF e.out.n # n THEN {"corr pairs " \o ToString(e.out.n) \o " expected " \o ToString(n)}
     ELSE IF ~flat /\ e.method = "percbend" /\ ~(BendDefined(x, e.beta) /\ BendDefined(y, e.beta)) THEN {}
     ELSE LET r == IF flat THEN Undef ELSE CoefBy(x, y, e.method, e.c, e.beta)
              two == e.tail = "two-sided"
          IN IF ~RDefined(r) THEN UNION {Wrong("corr " \o q, e.out[q] \in Gone, e.out[q], Undef) : q \in AllGone}
             ELSE Wrong("corr r", Near(e.out.r, r), e.out.r, r)
                  \union Wrong("corr r2", Near(e.out.r2, RSq(r)), e.out.r2, RSq(r))
                  \union Wrong("corr adj_r2", Near(e.out.adj_r2, Adjusted(r, n)), e.out.adj_r2, Adjusted(r, n))
                  \union (IF RGt(RAbs(r), "0.999") THEN {} ELSE
                     LET p == PVal(r, n)  q == IF two THEN p ELSE RDiv(p, "2")  ci == Interval(r, n, "0.95")
                         pw == Power(r, RNorm(n), "0.05", two)
                     IN (IF e.method = "kendall" THEN {} ELSE Wrong("corr p", Near(e.out.p, q), e.out.p, q))
                        \union UNION {Wrong("corr ci", RDefined(e.out.ci[k]) /\ RNear(e.out.ci[k], ci[k], "0.0050011", "0") /\ RNear(e.out.ci[k], RHalfUp(e.out.ci[k], 2), "0.0000000001", "0"), e.out.ci[k], ci[k]) : k \in {1, 2}}
                        \union (IF n <= 4 THEN Wrong("corr power", e.out.power \in Gone, e.out.power, Undef)
                                ELSE Wrong("corr power", AgreeTol(e.out.power, pw, "0.0000001", "0.0000001"), e.out.power, pw))
                        \union (IF e.method = "pearson" /\ two /\ RLt(RAbs(r), "0.95")
                                THEN LET b == Bayes(r, n) IN Wrong("corr evidence", AgreeTol(e.out.bf, b, IF RLt(b, "9999") THEN "0.000501" ELSE "0", IF RLt(b, "9999") THEN "0.0000001" ELSE "0.00051"), e.out.bf, b)
                                ELSE {}))

Shepherd(e) ==
  LET keep == Known(e.x) \intersect Known(e.y)
      x == Pick(e.x, keep)  y == Pick(e.y, keep)  n == Len(x)
  IN IF e.err # "" THEN {"shepherd failed " \o e.err}
     ELSE IF ~Settled(x, y) THEN {}
     ELSE LET far == FarOut(x, y)
              a == Pick(x, DOMAIN x \ far)  b == Pick(y, DOMAIN y \ far)
              r == Cut(Spearman(a, b))  p == PVal(r, Len(a))  q == IF e.tail = "two-sided" THEN p ELSE RDiv(p, "2")
          IN (IF e.out.n = n THEN {} ELSE {"shepherd pairs " \o ToString(e.out.n)})
             \union Wrong("shepherd outliers", e.out.outliers = ToString(Cardinality(far)), e.out.outliers, ToString(Cardinality(far)))
             \union Wrong("shepherd r", Near(e.out.r, r), e.out.r, r)
             \union Wrong("shepherd r2", Near(e.out.r2, RSq(r)), e.out.r2, RSq(r))
             \union (IF RGt(RAbs(r), "0.999") THEN {} ELSE Wrong("shepherd p", Near(e.out.p, q), e.out.p, q))

CorrVerdict(e) ==
  CASE e.op = "corr" -> Association(e)
    [] e.op = "shepherd" -> Shepherd(e)
    [] e.op = "power" ->
         (* the number solved for makes the power what was asked for *)
         IF e.err # "" THEN {"power failed " \o e.err}
         ELSE IF e.solve = "power" THEN LET v == Power(e.r, e.n, e.alpha, e.two) IN Wrong("power", AgreeTol(e.out, v, "0.00000001", "0.0000001"), e.out, v)
         ELSE IF ~RDefined(e.out) THEN {"power no " \o e.solve \o " found: " \o e.out}
         ELSE LET v == Power(IF e.solve = "r" THEN e.out ELSE e.r, IF e.solve = "n" THEN e.out ELSE e.n, IF e.solve = "alpha" THEN e.out ELSE e.alpha, e.two)
              IN Wrong("power of the solved " \o e.solve, AgreeTol(e.power, v, "0.000001", "0.000001"), e.power, v)
    [] e.op = "interval" ->
         LET ci == IF e.kind = "r" THEN Interval(e.stat, e.nx, e.conf) ELSE EffectInterval(e.stat, e.nx, e.ny, e.one, e.conf)
         IN IF e.err # "" THEN {"interval failed " \o e.err}
            ELSE UNION {Wrong("interval " \o e.kind, RDefined(e.out[k]) /\ RNear(e.out[k], RHalfUp(ci[k], 30), RAdd(RDiv("0.5001", RPow("10", e.dec)), "0.000000001"), "0") /\ RNear(e.out[k], RHalfUp(e.out[k], e.dec), "0.00000000001", "0"), e.out[k], ci[k]) : k \in {1, 2}}
    [] e.op = "complete1" ->
         LET kx == IF e.paired THEN Known(e.x) \intersect Known(e.y) ELSE Known(e.x)
             ky == IF e.paired THEN kx ELSE Known(e.y)
         IN IF e.err # "" THEN {"complete failed " \o e.err}
            ELSE (IF e.ox = Pick(e.x, kx) THEN {} ELSE {"complete first " \o ToString(e.ox)}) \union (IF e.oy = Pick(e.y, ky) THEN {} ELSE {"complete second " \o ToString(e.oy)})
    [] e.op = "complete2" ->
         LET K(t) == IF e.rows THEN KnownRows(t) ELSE KnownCols(t)
             P(t, s) == IF e.rows THEN Pick(t, s) ELSE PickCols(t, s)
             kx == IF e.paired THEN K(e.x) \intersect K(e.y) ELSE K(e.x)
             ky == IF e.paired THEN kx ELSE K(e.y)
         IN IF e.err # "" THEN {"complete failed " \o e.err}
            ELSE (IF e.ox = P(e.x, kx) THEN {} ELSE {"complete table first " \o ToString(e.ox)}) \union (IF e.oy = P(e.y, ky) THEN {} ELSE {"complete table second " \o ToString(e.oy)})
    [] OTHER -> {"unknown operation"}
================================================================================
