--------------------------------- MODULE MjoEnso --------------------------------
(* Coupling of the Madden-Julian oscillation with El Nino: stress along the patterns of the oscillation, its power  *)
(* on the Kelvin wave, and the two monthly indices.                                                                 *)
EXTENDS Conf, Integers, Sequences, FiniteSets, TLC
Str(n) == ToString(n)
Tab2(t) == TLCEval([i \in DOMAIN t |-> TLCEval(t[i])])
R25(x) == RHalfUp(x, 25)
RECURSIVE Largest(_)
Largest(q) == IF q = <<>> THEN "0" ELSE RMax(RAbs(q[1]), Largest(Tail(q)))
RECURSIVE Least(_)
Least(q) == IF Len(q) = 1 THEN q[1] ELSE RMin(q[1], Least(Tail(q)))

(* ------------------------------------------------------------ stress                                          *)
(* centred convolution with an odd number of weights, nothing outside the series *)
Smooth(x, f) ==
  LET h == (Len(f) - 1) \div 2
      w(d) == IF d + h + 1 \in DOMAIN f THEN f[d + h + 1] ELSE "0"
  IN TLCEval([t \in DOMAIN x |-> RSum([s \in DOMAIN x |-> RMul(x[s], w(t - s))])])
(* what the first filter leaves, through the second *)
Passed(x, f, g) == LET l == Smooth(x, f) IN Smooth(TLCEval([t \in DOMAIN x |-> RSub(x[t], l[t])]), g)
(* x[point][time], patterns p[number][point], filters by point *)
Tau(x, p, f, g) ==
  LET b == Tab2([k \in DOMAIN x |-> Passed(x[k], f[k], g[k])])
      T == DOMAIN x[1]
      pc == Tab2([j \in DOMAIN p |-> [t \in T |-> RDiv(RDot(p[j], [k \in DOMAIN x |-> b[k][t]]), Str(Len(x)))]])
      sd == TLCEval([j \in DOMAIN p |-> RSqrt(RVarS(pc[j]))])
      r == Tab2([k \in DOMAIN x |-> [j \in DOMAIN p |-> RDiv(RDot(b[k], pc[j]), sd[j])]])
  IN Tab2([k \in DOMAIN x |-> [t \in T |-> RSum([j \in DOMAIN p |-> R25(RMul(r[k][j], pc[j][t]))])]])

(* ------------------------------------------------------------ Kelvin wave                                     *)
Erf(x) == RSub(RMul("2", RNormCdf(RMul(x, RSqrt("2")))), "1")
(* degrees per equatorial radius of deformation of a wave of 90 cm equivalent depth *)
Radius == RDiv(RSqrt(RDiv(RSqrt(RMul("0.0981", "90")), "0.0000000000228")), "111000")
(* n cells between the outer latitudes; the wave is fixed at the cell nearest to the equator and follows dphi/dy = -y phi by the trapezoidal rule *)
Kelvin(south, north, n) ==
  LET ys == RDiv(south, Radius)
      yn == RDiv(north, Radius)
      dy == RDiv(RSub(yn, ys), Str(n))
      y == TLCEval([j \in 1..n |-> R25(RAdd(ys, RMul(RSub(Str(j), "1/2"), dy)))])
      mid == CHOOSE j \in 1..n : \A k \in 1..n : RLeq(RAbs(y[j]), RAbs(y[k]))
      norm == RDiv("1", RSqrt(RMul(RSqrt(RPi), RAdd(Erf(yn), Erf(RNeg(ys))))))
      d == RDiv("2", dy)
      step(j) == RDiv(RSub(d, y[j]), RAdd(d, y[j + 1]))     \* from cell j to the next
      first == RMul(norm, RExp(RNeg(RDiv(RSq(y[mid]), "2"))))
      RECURSIVE up(_)
      up(j) == IF j = mid THEN first ELSE R25(RMul(up(j - 1), step(j - 1)))
      RECURSIVE down(_)
      down(j) == IF j = mid THEN first ELSE R25(RDiv(down(j + 1), step(j)))
  IN TLCEval([j \in 1..n |-> IF j >= mid THEN up(j) ELSE down(j)])

(* ------------------------------------------------------------ indices                                         *)
(* divided by the standard deviation, the mean is not removed *)
Unit(q) == LET s == RSqrt(RVarP(q)) IN TLCEval([k \in DOMAIN q |-> R25(RDiv(q[k], s))])
Comp(rows, p) == Unit(TLCEval([t \in DOMAIN rows[1] |-> RNeg(RDot(p, [k \in DOMAIN rows |-> rows[k][t]]))]))
(* w and s by longitude and time, p two patterns over both *)
Daily(w, s, p) ==
  LET rows == Tab2([k \in DOMAIN w |-> Unit(w[k])] \o [k \in DOMAIN s |-> Unit(s[k])])
      a == Comp(rows, p[1])
      b == Comp(rows, p[2])
  IN Tab2(<<[t \in DOMAIN a |-> RAdd(a[t], RAbs(b[t]))], [t \in DOMAIN a |-> RAdd(a[t], b[t])]>>)
(* the first days of months that have 90 days before them *)
Months(day) == LET RECURSIVE go(_) go(k) == IF k > Len(day) THEN <<>> ELSE (IF day[k] = 1 /\ k > 90 THEN <<k>> ELSE <<>>) \o go(k + 1) IN go(1)
Minima(q, day) == LET m == Months(day) IN TLCEval([k \in DOMAIN m |-> Least(SubSeq(q, m[k] - 90, m[k]))])

(* ------------------------------------------------------------ verdicts                                        *)
CloseTo(q, w, eps) == Len(q) = Len(w) /\ \A k \in DOMAIN q : RDefined(q[k]) /\ RNear(q[k], w[k], eps, "0")
(* single precision *)
TauVerdict(e) ==
  LET want == Tau(e.x, e.p, e.f, e.g)
      eps == RMul("0.0001", RAdd(Largest([k \in DOMAIN want |-> Largest(want[k])]), "0.001"))
  IN (IF Len(e.out) # Len(want) THEN {"stress of another grid"}
      ELSE {"stress at point " \o Str(k) \o " is " \o ToString(e.out[k]) \o " expected " \o ToString([t \in DOMAIN want[k] |-> RHalfUp(want[k][t], 6)]) : k \in {j \in DOMAIN want : ~CloseTo(e.out[j], want[j], eps)}})
     \union (IF e.gaps THEN {} ELSE {"stress where there are no data"})
     \union (IF e.kept THEN {} ELSE {"stress changed its input"})
(* u, v, and the stresses by latitude, all longitudes and times of it in one sequence *)
PowerVerdict(e) ==
  LET phi == Kelvin(e.south, e.north, Len(e.u))
      want(j) == [k \in DOMAIN e.u[j] |-> RMul(phi[j], RAdd(RMul(e.u[j][k], e.a[j][k]), RMul(e.v[j][k], e.b[j][k])))]
  IN (IF Len(e.out) # Len(e.u) THEN {"power of another grid"}
      ELSE {"power at latitude " \o Str(j) \o " is " \o ToString(e.out[j]) \o " expected " \o ToString([k \in DOMAIN e.u[j] |-> RHalfUp(want(j)[k], 9)]) : j \in {i \in DOMAIN e.u : ~CloseTo(e.out[i], want(i), "0.0000001")}})
     \union (IF e.kept THEN {} ELSE {"power changed its input"})
IndexVerdict(e) ==
  LET d == Daily(e.w, e.s, e.p)
      m == Months(e.day)
      name == <<"make", "maki">>
      want(i) == LET q == Minima(d[i], e.day) IN IF RLt(RVarP(q), "0.000001") THEN <<>> ELSE Unit(q)
      bad(i) == LET w == want(i) IN w # <<>> /\ ~CloseTo(e.out[i], w, "0.00001")
  IN {"index " \o name[i] \o " is " \o ToString(e.out[i]) \o " expected " \o ToString([k \in DOMAIN want(i) |-> RHalfUp(want(i)[k], 7)]) : i \in {j \in 1..2 : bad(j)}}
     \union {"index months " \o ToString(e.label[i]) : i \in {j \in 1..2 : e.label[j] # [k \in DOMAIN m |-> e.date[m[k]]]}}
     \union (IF e.kept THEN {} ELSE {"index changed its input"})
MjoEnsoVerdict(e) ==
  IF e.err # "" THEN {e.op \o " failed " \o e.err}
  ELSE CASE e.op = "tau" -> TauVerdict(e) [] e.op = "power" -> PowerVerdict(e) [] e.op = "index" -> IndexVerdict(e) [] OTHER -> {"unknown " \o e.op}
================================================================================
