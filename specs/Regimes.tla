--------------------------------- MODULE Regimes --------------------------------
(* Weather regimes: anomalies of heights, their principal components, the classes of days and what is reported.   *)
EXTENDS Conf, Integers, Sequences, FiniteSets
Near(o, v) == AgreeTol(o, v, "0.0000001", "0.0000001")
Nears(q, w) == Len(q) = Len(w) /\ \A k \in DOMAIN q : Near(q[k], w[k])
Fail(e) == IF e.err # "" THEN {e.op \o " failed " \o e.err} ELSE {}

(* ------------------------------------------------------------ anomalies                                       *)
Axis(n) == [k \in 1..n |-> ToString(k)]
Centred(q) == LET m == RMean(q) IN [k \in DOMAIN q |-> RSub(q[k], m)]
(* what is left of a series after the least squares line *)
Residual(q) ==
  IF Len(q) = 1 THEN <<"0">>
  ELSE LET t == Centred(Axis(Len(q)))  x == Centred(q)  b == RDiv(RDot(t, x), RDot(t, t))
       IN [k \in DOMAIN q |-> RSub(x[k], RMul(b, t[k]))]
Anomaly(q, lat) == LET w == RCosDeg(lat)  r == Residual(q) IN [k \in DOMAIN q |-> RMul(w, r[k])]
AnomalyVerdict(e) ==
  LET want == Anomaly(e.vals, e.lat) IN
  (IF Nears(e.out, want) THEN {} ELSE {"anomaly of " \o ToString(e.vals) \o " at " \o e.lat \o " is " \o ToString(e.out)})
  \union (IF e.flat = e.out THEN {} ELSE {"anomaly rearranged " \o ToString(e.flat) \o " from " \o ToString(e.out)})

(* ------------------------------------------------------------ principal components                            *)
(* x[day][season] is the map of that time; row (season-1)*days+day of the time axis *)
Days(e) == Len(e.x)
Seasons(e) == Len(e.x[1])
Points(e) == Len(e.x[1][1])
(* the detrended map values by row *)
Detrended(e) ==
  LET r == [d \in 1..Days(e) |-> [p \in 1..Points(e) |-> Residual([s \in 1..Seasons(e) |-> e.x[d][s][p]])]]
  IN [t \in 1..(Days(e) * Seasons(e)) |-> [p \in 1..Points(e) |-> r[((t - 1) % Days(e)) + 1][p][((t - 1) \div Days(e)) + 1]]]
Col(m, k) == [t \in DOMAIN m |-> m[t][k]]
EofVerdict(e) ==
  LET y == Detrended(e)
      n == Len(y)
      n1 == ToString(n - 1)
      m == Points(e)
      K == Len(e.eof)
      lam == [k \in 1..K |-> RDot(e.eof[k], e.eof[k])]
      total == RDiv(RSum([t \in 1..n |-> RDot(y[t], y[t])]), n1)
      eps == RMul("0.000001", RAdd(total, "1"))
      close(a, b) == RLeq(RAbs(RSub(a, b)), eps)
      cov(k) == LET c == Col(e.pc, k) IN [p \in 1..m |-> RDiv(RDot(c, Col(y, p)), n1)]
      proj(k) == [t \in 1..n |-> RDot(y[t], e.eof[k])]
      eig(k) == LET a == proj(k) IN [p \in 1..m |-> RDiv(RDot(a, Col(y, p)), n1)]
  IN (IF Len(e.pc) = n /\ \A k \in 1..K : Len(e.eof[k]) = m THEN {} ELSE {"eof shape"})
     \union {"eof components " \o ToString(<<j, k>>) \o " are not orthonormal" : <<j, k>> \in {q \in (1..K) \X (1..K) :
               ~RNear(RDiv(RDot(Col(e.pc, q[1]), Col(e.pc, q[2])), n1), IF q[1] = q[2] THEN "1" ELSE "0", "0.000001", "0")}}
     \union {"eof map " \o ToString(k) \o " is not the covariance with its component" : k \in {j \in 1..K : \E p \in 1..m : ~close(e.eof[j][p], cov(j)[p])}}
     \union {"eof map " \o ToString(k) \o " is not a principal direction" : k \in {j \in 1..K : LET g == eig(j) IN \E p \in 1..m : ~close(g[p], RMul(lam[j], e.eof[j][p]))}}
     \union {"eof order at " \o ToString(k) : k \in {j \in 1..(K - 1) : RLt(RAdd(lam[j], eps), lam[j + 1])}}
     \union {"eof share of " \o ToString(k) \o " is " \o e.share[k] : k \in {j \in 1..K : ~RNear(e.share[j], RMul("100", RDiv(lam[j], total)), "0.000001", "0.000001")}}
     \union (IF e.full => RNear(RSum(e.share), "100", "0.000001", "0") THEN {} ELSE {"eof shares of all components sum to " \o RSum(e.share)})
     \union {"reconstruction of time " \o ToString(t) : t \in {j \in 1..n : \E p \in 1..m : ~close(e.rec[j][p], RSum([k \in 1..K |-> RMul(e.pc[j][k], e.eof[k][p])]))}}
     \union {"reconstruction from all components differs at time " \o ToString(t) : t \in {j \in 1..n : e.full /\ \E p \in 1..m : ~close(e.rec[j][p], y[j][p])}}

(* ------------------------------------------------------------ classes of days                                 *)
Dist2(a, b) == LET d == [k \in DOMAIN a |-> RSub(a[k], b[k])] IN RDot(d, d)
Members(e, c) == {t \in DOMAIN e.lab : e.lab[t] = c}
SeqOf(S) == LET RECURSIVE go(_) go(T) == IF T = {} THEN <<>> ELSE LET a == CHOOSE x \in T : \A y \in T : x <= y IN <<a>> \o go(T \ {a}) IN go(S)
ClassVerdict(e) ==
  LET K == e.k
      n == Len(e.pts)
      share(c) == RDiv(ToString(Cardinality(Members(e, c))), ToString(n))
      mean(c) == LET q == SeqOf(Members(e, c)) IN [p \in DOMAIN e.pts[1] |-> RMean([j \in DOMAIN q |-> e.pts[q[j]][p]])]
  IN (IF Len(e.lab) = n /\ \A t \in 1..n : e.lab[t] \in 1..K THEN {} ELSE {"classes are " \o ToString(e.lab)})
     \union {"frequency of class " \o ToString(c) \o " is " \o e.perc[c] : c \in {j \in 1..K : ~Near(e.perc[j], share(j))}}
     \union {"frequency order at " \o ToString(c) : c \in {j \in 1..(K - 1) : RLt(share(j), share(j + 1))}}
     \union {"pattern " \o ToString(c) \o " is not the mean of its days" : c \in {j \in 1..K : Members(e, j) # {} /\ \E p \in DOMAIN e.pts[1] : ~RNear(e.pat[j][p], mean(j)[p], "0.05", "0.000001")}}
     \union {"classes: day " \o ToString(t) \o " is nearer to another pattern" : t \in {j \in 1..n : \E c \in 1..K : RLt(RAdd(Dist2(e.pts[j], e.pat[c]), "0.000001"), Dist2(e.pts[j], e.pat[e.lab[j]]))}}

(* inertia of one cluster, the chord between the ends of the curve, the farthest point below it *)
ElbowVerdict(e) ==
  LET n == Len(e.curve)
      c0 == [p \in DOMAIN e.pts[1] |-> RMean(Col(e.pts, p))]
      one == RMul(RSum([t \in DOMAIN e.pts |-> Dist2(e.pts[t], c0)]), "0.0000000001")
      dx == ToString(n - 1)
      dy == RSub(e.curve[n], e.curve[1])
      norm == RSqrt(RAdd(RSq(dx), RSq(dy)))
      chord(k) == RAdd(e.curve[1], RMul(RDiv(ToString(k - 1), dx), dy))
      dist(k) == RDiv(RSub(RMul(dx, RSub(e.curve[k], e.curve[1])), RMul(dy, ToString(k - 1))), norm)
      tiny == RMul("0.0000001", RAdd(one, "0.0000000000001"))
      low == {k \in 1..n : \A j \in 1..n : RLeq(e.d[k], e.d[j])}
  IN (IF n = e.k - 1 /\ e.sizes = [j \in 1..n |-> j] THEN {} ELSE {"elbow sizes " \o ToString(e.sizes)})
     \union (IF RNear(e.curve[1], one, tiny, "0") THEN {} ELSE {"elbow curve starts at " \o e.curve[1] \o " expected " \o one})
     \union {"elbow line at " \o ToString(k) : k \in {j \in 1..n : ~RNear(e.line[j], chord(j), tiny, "0")}}
     \union {"elbow distance at " \o ToString(k) : k \in {j \in 1..n : ~RNear(e.d[j], dist(j), tiny, "0")}}
     \union (IF {e.mi[j] + 1 : j \in DOMAIN e.mi} = low THEN {} ELSE {"elbow is at " \o ToString(e.mi) \o " not " \o ToString(low)})

(* ------------------------------------------------------------ counts in windows                               *)
Count(lab, c, from, w) == Cardinality({j \in from..(from + w - 1) : lab[j] = c})
Windows(lab, w) == Len(lab) - w + 1
FreqVerdict(e) ==
  (IF e.n = Windows(e.lab[1], e.w) /\ e.step = e.w THEN {} ELSE {"windows " \o ToString(e.n) \o " of " \o ToString(e.step)})
  \union IF e.n # Windows(e.lab[1], e.w) THEN {} ELSE UNION {{"count of class " \o ToString(q[1]) \o " in season " \o ToString(y) \o " window " \o ToString(q[2]) \o " is " \o e.out[q[1]][y][q[2]]
                 : q \in {z \in (1..e.k) \X (1..Windows(e.lab[y], e.w)) : ~REq(e.out[z[1]][y][z[2]], ToString(Count(e.lab[y], z[1], z[2], e.w)))}} : y \in DOMAIN e.lab}

(* ------------------------------------------------------------ matching forecast classes to observed ones      *)
(* order[c] is the forecast class that becomes class c *)
Inv(order, c) == CHOOSE k \in DOMAIN order : order[k] = c
Relabel(lab, order) == [t \in DOMAIN lab |-> Inv(order, lab[t])]
Pick(q, order) == [k \in DOMAIN order |-> q[order[k]]]
Perms(n) == {f \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => f[a] # f[b]}
ReorderClauses(e, order) ==
  (IF e.pat2 = Pick(e.pat, order) THEN {} ELSE {"patterns not in order " \o ToString(order)})
  \union (IF e.perc2 = Pick(e.perc, order) THEN {} ELSE {"frequencies not in order " \o ToString(order)})
  \union (IF e.lab2 = [t \in DOMAIN e.lab |-> ToString(Inv(order, e.lab[t]))] THEN {} ELSE {"labels " \o ToString(e.lab2) \o " not renamed by " \o ToString(order)})
ReorderVerdict(e) == ReorderClauses(e, e.order)
Corr(a, b) == LET x == Centred(a)  y == Centred(b) IN RDiv(RDot(x, y), RSqrt(RMul(RDot(x, x), RDot(y, y))))
(* the observed classes take, one after another, the forecast class they correlate best with among those left *)
Greedy(obs, fc, order) == \A k \in DOMAIN order : \A c \in {order[j] : j \in {i \in DOMAIN order : i > k}} : RLeq(Corr(obs[k], fc[c]), RAdd(Corr(obs[k], fc[order[k]]), "0.000000001"))
MatchVerdict(e) ==
  LET good == {f \in Perms(Len(e.pat)) : Greedy(e.obs, e.pat, f)}
  IN IF \E f \in good : ReorderClauses(e, f) = {} THEN {} ELSE UNION {ReorderClauses(e, f) : f \in good}

(* ------------------------------------------------------------ files                                           *)
TableVerdict(e) == LET want == [t \in DOMAIN e.lab |-> <<e.year[t], e.month[t], e.day[t], e.lab[t]>>] IN
  (IF Len(e.rows) = Len(want) THEN {} ELSE {"table has " \o ToString(Len(e.rows)) \o " rows"})
  \union {"table row " \o ToString(t) \o " is " \o ToString(e.rows[t]) \o " expected " \o ToString(want[t]) : t \in {j \in DOMAIN want \cap DOMAIN e.rows :
            ~\A k \in 1..4 : REq(e.rows[j][k], want[j][k])}}
  \union {"table time " \o ToString(t) : t \in {j \in DOMAIN e.elapsed : ~REq(e.elapsed[j], e.since[j])}}
(* fields read from files, missing ones as missing values *)
ReadVerdict(e) ==
  {"read value " \o ToString(k) \o " is " \o e.out[k] \o " expected " \o e.vals[k] : k \in {j \in DOMAIN e.vals : IF e.vals[j] = "none" THEN e.out[j] # "none" ELSE ~(RDefined(e.out[j]) /\ REq(e.out[j], e.vals[j]))}}
  \union (IF e.times = e.want THEN {} ELSE {"read times " \o ToString(e.times) \o " expected " \o ToString(e.want)})
(* matched pairs: one file per forecast time, one row per point *)
PairVerdict(e) ==
  (IF e.files = e.names THEN {} ELSE {"pairs written to " \o ToString(e.files) \o " expected " \o ToString(e.names)})
  \union {"pairs row " \o ToString(k) \o " is " \o ToString(e.rows[k]) \o " expected " \o ToString(e.want[k]) : k \in {j \in DOMAIN e.want : j \notin DOMAIN e.rows \/ Len(e.rows[j]) # Len(e.want[j]) \/ ~\A c \in DOMAIN e.want[j] : e.rows[j][c] = e.want[j][c] \/ ((\E k \in DOMAIN e.numeric : e.numeric[k] = c) /\ RDefined(e.rows[j][c]) /\ RNear(e.rows[j][c], e.want[j][c], "0.0000501", "0"))}}
  \union (IF Len(e.rows) = Len(e.want) THEN {} ELSE {"pairs rows " \o ToString(Len(e.rows))})

RegimesVerdict(e) ==
  IF Fail(e) # {} THEN Fail(e)
  ELSE CASE e.op = "anomaly" -> AnomalyVerdict(e) [] e.op = "eof" -> EofVerdict(e) [] e.op = "classes" -> ClassVerdict(e) [] e.op = "elbow" -> ElbowVerdict(e)
         [] e.op = "freq" -> FreqVerdict(e) [] e.op = "reorder" -> ReorderVerdict(e) [] e.op = "match" -> MatchVerdict(e)
         [] e.op = "table" -> TableVerdict(e) [] e.op = "read" -> ReadVerdict(e) [] e.op = "pairs" -> PairVerdict(e)
         [] OTHER -> {"unknown " \o e.op}
================================================================================
