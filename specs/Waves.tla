--------------------------------- MODULE Waves ----------------------------------
(* Directional means, and the discrete Fourier decomposition along a circle of latitude.                        *)
(* A circle x is a sequence of values; j-th value at 360 (j - 1) / n degrees.                                   *)
EXTENDS Conf, Sequences

Present(x) == SelectSeq(x, LAMBDA a : RDefined(a))
ZonalMean(x) == RMean(Present(x))                                    \* missing values are left out
(* latitudes lat, values x *)
MeridionalMean(lat, x, a, b) ==
  LET in == {j \in DOMAIN lat : RGeq(lat[j], a) /\ RLeq(lat[j], b) /\ RDefined(x[j])}
      w == [j \in DOMAIN lat |-> IF j \in in THEN RCosDeg(lat[j]) ELSE "0"]
      y == [j \in DOMAIN lat |-> IF j \in in THEN x[j] ELSE "0"]
  IN IF in = {} THEN Undef ELSE RDiv(RDot(w, y), RSum(w))

Last(n) == n \div 2                                                  \* highest wavenumber
Angle(n, k, j) == RDiv(360 * (((j - 1) * k) % n), n)
Re(x, k) == RDot(x, [j \in DOMAIN x |-> RCosDeg(Angle(Len(x), k, j))])
Im(x, k) == RNeg(RDot(x, [j \in DOMAIN x |-> RSinDeg(Angle(Len(x), k, j))]))
Times(n, k) == IF k = 0 \/ 2 * k = n THEN "1" ELSE "2"               \* every other wave has a mirror image
Ampl(x, k) == RDiv(RMul(Times(Len(x), k), RSqrt(RAdd(RSq(Re(x, k)), RSq(Im(x, k))))), Len(x))
Phase(x, k) == RAtan2Deg(Im(x, k), Re(x, k))
(* part of the field carried by wave k, at point j *)
Part(x, k, j) == LET a == Angle(Len(x), k, j) IN
  RDiv(RMul(Times(Len(x), k), RSub(RMul(Re(x, k), RCosDeg(a)), RMul(Im(x, k), RSinDeg(a)))), Len(x))
Cov(x, y, k) == RDiv(RMul(Times(Len(x), k), RAdd(RMul(Re(x, k), Re(y, k)), RMul(Im(x, k), Im(y, k)))), Len(x) * Len(x))

Size(x) == RAdd("1", RSum([j \in DOMAIN x |-> RAbs(x[j])]))
Ok(o, v, tol) == IF RDefined(v) THEN RDefined(o) /\ RNear(o, v, tol, tol) ELSE o = "nan"
(* same direction, modulo full turns *)
Turn(o, v, tol) == LET d == RMod(RAdd(RSub(o, v), "180"), "360") IN RDefined(d) /\ RNear(d, "180", tol, "0")
WavesVerdict(e) ==
  CASE e.op = "zonal" -> IF e.err # "" THEN {"failed " \o e.err} ELSE IF Ok(e.out, ZonalMean(e.x), e.tol) THEN {} ELSE {Say("mean", e.out, ZonalMean(e.x))}
    [] e.op = "meridional" ->
         IF RGeq(e.a, e.b) THEN (IF e.err = "exc:ValueError" THEN {} ELSE {"accepted band " \o e.err})
         ELSE IF e.err # "" THEN {"failed " \o e.err}
         ELSE LET v == MeridionalMean(e.lat, e.x, e.a, e.b) IN IF Ok(e.out, v, e.tol) THEN {} ELSE {Say("mean", e.out, v)}
    [] OTHER ->
     IF e.err # "" THEN {"failed " \o e.err} ELSE
     LET t == RMul(e.tol, Size(e.x)) IN
     IF Len(e.out) # Len(e.waves) THEN {"waves"} ELSE
     UNION {LET k == e.waves[i]
                o == e.out[i]
            IN CASE e.op = "coeffs" -> (IF Ok(o.re, Re(e.x, k), t) /\ Ok(o.im, Im(e.x, k), t) THEN {} ELSE {"coefficient " \o ToString(k) \o Say("", o.re, Re(e.x, k)) \o Say("", o.im, Im(e.x, k))})
                 [] e.op = "ampl" -> (IF Ok(o.a, Ampl(e.x, k), t) THEN {} ELSE {"amplitude " \o ToString(k) \o Say("", o.a, Ampl(e.x, k))})
                               \cup (IF RLt(Ampl(e.x, k), "0.01") \/ Turn(RMul(o.p, IF e.deg THEN "1" ELSE RDiv("180", RPi)), Phase(e.x, k), RMul("10000", t))
                                     THEN {} ELSE {"phase " \o ToString(k) \o Say("", o.p, Phase(e.x, k))})
                 [] e.op = "parts" -> (IF Len(o) # Len(e.x) THEN {"longitudes"} ELSE
                                      {"part " \o ToString(k) \o Say("", o[j], Part(e.x, k, j)) : j \in {q \in DOMAIN o : ~Ok(o[q], Part(e.x, k, q), t)}})
                 [] OTHER -> IF Ok(o, Cov(e.x, e.y, k), RMul(t, Size(e.y))) THEN {} ELSE {"covariance " \o ToString(k) \o Say("", o, Cov(e.x, e.y, k))}
           : i \in DOMAIN e.waves}
================================================================================
