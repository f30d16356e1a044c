-------------------------------- MODULE Spacetime -------------------------------
(* Space-time spectra of equatorial waves: Fourier coefficients by their defining sums, smoothing, symmetry about the  *)
(* equator, wave regions in wavenumber and frequency, dispersion curves, change of longitude convention.               *)
EXTENDS Conf, Integers, Sequences, FiniteSets, TLC
Close(o, v) == AgreeTol(o, v, "0.00000001", "0.0000001")
CloseSeq(q, w) == Len(q) = Len(w) /\ \A k \in DOMAIN q : Close(q[k], w[k])
CloseTab(q, w) == Len(q) = Len(w) /\ \A k \in DOMAIN q : CloseSeq(q[k], w[k])
Str(n) == ToString(n)
(* nested tables are evaluated once, at every level *)
Tab2(t) == TLCEval([i \in DOMAIN t |-> TLCEval(t[i])])
Tab3(t) == TLCEval([i \in DOMAIN t |-> Tab2(t[i])])
Tab4(t) == TLCEval([i \in DOMAIN t |-> Tab3(t[i])])
SMin2(a, b) == IF a < b THEN a ELSE b
SMax2(a, b) == IF a > b THEN a ELSE b

(* ------------------------------------------------------------ smoothing                                       *)
Known(q, k) == k \in DOMAIN q /\ q[k] # "none"
(* one quarter of each neighbour; a missing neighbour is replaced by the value itself, so the sum is kept *)
Smooth(q) == [k \in DOMAIN q |-> IF q[k] = "none" THEN "undef"
   ELSE RDiv(RSum3(IF Known(q, k - 1) THEN q[k - 1] ELSE q[k], RMul("2", q[k]), IF Known(q, k + 1) THEN q[k + 1] ELSE q[k]), "4")]

(* ------------------------------------------------------------ taper                                           *)
Tapering(n, pct) == SMax2(1, RToInt(RFloor(RDiv(RAdd(RMul(pct, Str(n)), "0.5"), "2"))))
Bell(i, m) == RDiv(RSub("1", RCosDeg(RDiv(Str(90 * (2 * i - 1)), Str(m)))), "2")
Window(n, pct) == LET m == Tapering(n, pct) IN TLCEval([k \in 1..n |-> RMul(IF k <= m THEN Bell(k, m) ELSE "1", IF n + 1 - k <= m THEN Bell(n + 1 - k, m) ELSE "1")])

(* ------------------------------------------------------------ symmetry                                        *)
(* rows x[latitude], latitudes lat mirrored about the equator; for each kept latitude the mean or half difference *)
Opposite(lat, j) == CHOOSE k \in DOMAIN lat : REq(RNeg(lat[k]), lat[j])
Rows(lat, sym) == LET RECURSIVE go(_) go(k) == IF k > Len(lat) THEN <<>> ELSE (IF RGt(lat[k], "0") \/ (sym /\ REq(lat[k], "0")) THEN <<k>> ELSE <<>>) \o go(k + 1) IN go(1)
Part(x, lat, sym) == LET r == Rows(lat, sym) IN
   [i \in DOMAIN r |-> LET a == x[r[i]]  b == x[Opposite(lat, r[i])] IN [p \in DOMAIN a |-> RDiv(IF sym THEN RAdd(a[p], b[p]) ELSE RSub(a[p], b[p]), "2")]]

(* ------------------------------------------------------------ spectra                                         *)
(* x[latitude][time][longitude]; coefficient of frequency f (cycles per nt) and eastward wavenumber w (cycles per nl) *)
Turn(a, n) == RDiv(Str(360 * (a % n)), Str(n))
(* 30 digits of the cosines and sines of the parts of a turn *)
Digits == 30
Circle(n) == TLCEval([j \in 0..(n - 1) |-> <<RHalfUp(RCosDeg(Turn(j, n)), Digits), RHalfUp(RSinDeg(Turn(j, n)), Digits)>>])
Coef(x, f, w, nt, nl, circle) ==
  LET at(t, l) == circle[((f * (t - 1)) * nl - (w * (l - 1)) * nt) % (nt * nl)]
      n == Str(nt * nl)
      part(k) == RDiv(RSum([t \in 1..nt |-> RSum([l \in 1..nl |-> RMul(x[t][l], at(t, l)[k])])]), n)
  IN TLCEval(<<RHalfUp(part(1), Digits), RNeg(RHalfUp(part(2), Digits))>>)
(* power of both, co-spectrum and quadrature spectrum of conj(x) y, averaged over latitudes *)
Cross(x, y, f, w, nt, nl, circle) ==
  LET m == Len(x)
      c == TLCEval([j \in 1..m |-> LET a == Coef(x[j], f, w, nt, nl, circle)  b == Coef(y[j], f, w, nt, nl, circle)
             IN <<RAdd(RSq(a[1]), RSq(a[2])), RAdd(RSq(b[1]), RSq(b[2])), RAdd(RMul(a[1], b[1]), RMul(a[2], b[2])), RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))>>])
  IN [k \in 1..4 |-> RDiv(RSum([j \in 1..m |-> c[j][k]]), Str(m))]
Waves(nl) == LET h == nl \div 2 IN [k \in 1..(2 * h + 1) |-> k - 1 - h]
(* spectra[kind][frequency][wavenumber]; frequencies from 0, or from minus to plus half of nt *)
OneSided(nt) == [k \in 1..(nt \div 2 + 1) |-> k - 1]
Spectra(x, y, freqs, nt, nl, sign) ==
  LET ws == Waves(nl)
      circle == Circle(nt * nl)
      s == Tab3([i \in DOMAIN freqs |-> [j \in DOMAIN ws |-> Cross(x, y, freqs[i], ws[j], nt, nl, circle)]])
  IN Tab3([k \in 1..4 |-> [i \in DOMAIN freqs |-> [j \in DOMAIN ws |-> IF k = 4 /\ sign < 0 THEN RNeg(s[i][j][4]) ELSE s[i][j][k]]]])
(* coherence squared, phase in radians, components of the phase vector *)
Coherence(px, py, c, q) == RDiv(RAdd(RSq(c), RSq(q)), RMul(px, py))
Radians(d) == RDiv(RMul(d, RPi), "180")
Derived(px, py, c, q) ==
  LET len == RSqrt(RAdd(RSq(c), RSq(q)))
  IN <<Coherence(px, py, c, q), Radians(RAtan2Deg(q, c)), RNeg(RDiv(q, len)), RDiv(c, len)>>
Residual(q) ==
  LET n == Len(q)  mt == RDiv(Str(n + 1), "2")  mx == RMean(q)
      t == TLCEval([k \in 1..n |-> RSub(Str(k), mt)])  x == TLCEval([k \in 1..n |-> RSub(q[k], mx)])
      b == RDiv(RDot(t, x), RDot(t, t))
  IN [k \in 1..n |-> RSub(x[k], RMul(b, t[k]))]
(* x[lat][lon][time] -> without trend *)
Detrended(x) == Tab3([j \in DOMAIN x |-> [l \in DOMAIN x[j] |-> Residual(x[j][l])]])
(* as the routine it mirrors counts: a segment must end before the last time, the next starts over - 1 after its end *)
Starts(n, len, over) == LET RECURSIVE go(_) go(s) == IF s + len >= n THEN <<>> ELSE <<s>> \o go(s + len + over - 1) IN go(0)
Segment(x, s, len, win) == Tab3([j \in DOMAIN x |-> [t \in 1..len |-> [l \in DOMAIN x[j] |-> RHalfUp(RMul(x[j][l][s + t], win[t]), Digits)]]])
(* averaged over segments; no values at frequency zero; smoothed over the other frequencies *)
SmoothRows(tab) == LET n == Len(tab)  m == Len(tab[1])
   cols == Tab2([j \in 1..m |-> Smooth([i \in 1..(n - 1) |-> tab[i + 1][j]])])
   IN [i \in 1..n |-> [j \in 1..m |-> IF i = 1 THEN "undef" ELSE cols[j][i - 1]]]
CrossSpectra(x, y, len, over) ==
  LET n == Len(x[1][1])  nl == Len(x[1])
      dx == Detrended(x)  dy == Detrended(y)
      win == TLCEval(Window(len, "0.1"))
      st == Starts(n, len, over)
      seg == Tab4([k \in DOMAIN st |-> LET s == Spectra(Segment(dx, st[k], len, win), Segment(dy, st[k], len, win), OneSided(len), len, nl, 1) IN [v \in 1..4 |-> SmoothRows(s[v])]])
      mean == Tab3([v \in 1..4 |-> [i \in 1..(len \div 2 + 1) |-> [j \in 1..(2 * (nl \div 2) + 1) |-> RDiv(RSum([k \in DOMAIN st |-> seg[k][v][i][j]]), Str(Len(st)))]]])
      der == Tab3([i \in DOMAIN mean[1] |-> [j \in DOMAIN mean[1][1] |-> IF i = 1 THEN <<"undef", "undef", "undef", "undef">> ELSE Derived(mean[1][i][j], mean[2][i][j], mean[3][i][j], mean[4][i][j])]])
  IN Tab3([v \in 1..8 |-> IF v <= 4 THEN mean[v] ELSE [i \in DOMAIN der |-> [j \in DOMAIN der[i] |-> der[i][j][v - 4]]]])

(* ------------------------------------------------------------ wave regions                                    *)
Radius == "6371008"
Gravity == "9.80665"
Beta == RDiv(RMul("2", "0.00007292"), Radius)
Speed(h) == RSqrt(RMul(Gravity, h))
Wavenumber(i, nk) == IF 2 * i < nk THEN i ELSE i - nk
Nearest(x) == RToInt(RFloor(RAdd(x, "0.5")))
(* angular frequency of the wave of signed wavenumber w at gravity wave speed c *)
Omega(name, w, c) ==
  LET k == RDiv(Str(w), Radius)
      inert(m) == RSqrt(RAdd(RProd3(Str(m), Beta, c), RMul(RSq(k), RSq(c))))
  IN CASE name = "KELVIN" -> RMul(k, c)
       [] name = "ER" -> RNeg(RDiv(RMul(Beta, k), RAdd(RSq(k), RDiv(RMul("3", Beta), c))))
       [] name \in {"MRG", "IG0"} ->
            IF w = 0 THEN RSqrt(RMul(Beta, c))
            ELSE LET r == RSqrt(RAdd("1", RDiv(RMul("4", Beta), RMul(RSq(k), c)))) IN RProd3(k, c, RDiv(IF w > 0 THEN RAdd("1", r) ELSE RSub("1", r), "2"))
       [] name = "IG1" -> inert(3)
       [] name = "IG2" -> inert(5)
(* in harmonics of nt observations *)
Harmonic(om, nt, perday) == RDiv(RProd3(om, "86400", Str(nt)), RProd3("2", RPi, Str(perday)))
Ceil(x) == RNeg(RFloor(RNeg(x)))
InWaves(i, nk, kmin, kmax) == \E w \in {i, i - nk} : (2 * w <= nk /\ 2 * w >= -nk) /\ kmin <= w /\ w <= kmax
(* e: nf, nk, perday, tmin, tmax, kmin, kmax, hmin, hmax ("none" when open), wave (upper case, or none of the names) *)
Names == {"KELVIN", "ER", "MRG", "IG0", "IG1", "IG2"}
(* lowest and highest frequency kept at a wavenumber *)
Limits(i, e) ==
  LET nt == 2 * (e.nf - 1)
      lo == Nearest(RDiv(Str(nt), RMul(e.tmax, Str(e.perday))))
      hi == Nearest(RDiv(Str(nt), RMul(e.tmin, Str(e.perday))))
      edge(h) == Harmonic(Omega(e.wave, Wavenumber(i, e.nk), Speed(h)), nt, e.perday)
  IN IF ~InWaves(i, e.nk, e.kmin, e.kmax) THEN <<1, 0>>
     ELSE <<IF e.wave \notin Names \/ e.hmin = "none" THEN lo ELSE SMax2(lo, SMin2(e.nf, RToInt(RFloor(edge(e.hmin))))),
            IF e.wave \notin Names \/ e.hmax = "none" THEN hi ELSE SMin2(hi, SMax2(0, RToInt(Ceil(edge(e.hmax)))))>>
(* i is the eastward wavenumber modulo nk; the coefficients of the transform are in westward order *)
Region(e) == LET lim == TLCEval([i \in 0..(e.nk - 1) |-> Limits(i, e)]) IN {p \in (0..(e.nf - 1)) \X (0..(e.nk - 1)) : lim[p[2]][1] <= p[1] /\ p[1] <= lim[p[2]][2]}
Share(f, nt) == IF f = 0 \/ 2 * f = nt THEN "1" ELSE "2"
(* data x[time][lon] restricted to the region *)
Kernel(tau, lam, nt, nl, reg, circle) ==
  LET RECURSIVE add(_)
      add(S) == IF S = {} THEN "0" ELSE LET p == CHOOSE q \in S : TRUE IN RAdd(RMul(Share(p[1], nt), circle[(p[1] * tau * nl - p[2] * lam * nt) % (nt * nl)][1]), add(S \ {p}))
  IN RDiv(add(reg), Str(nt * nl))
Filtered(x, e) ==
  LET nt == Len(x)  nl == Len(x[1])
      reg == TLCEval(Region(e))
      circle == Circle(nt * nl)
      ker == Tab2([tau \in 0..(nt - 1) |-> [lam \in 0..(nl - 1) |-> Kernel(tau, lam, nt, nl, reg, circle)]])
  IN [t \in 1..nt |-> [l \in 1..nl |-> RSum([s \in 1..nt |-> RSum([m \in 1..nl |-> RMul(x[s][m], ker[(t - s + nt) % nt][(l - m + nl) % nl])])])]]

(* ------------------------------------------------------------ dispersion curves                               *)
(* at a latitude: beta and the circumference both scale with its cosine *)
K(wn, lat) == RDiv(wn, RMul(Radius, RCosDeg(lat)))
BetaAt(lat) == RMul(Beta, RCosDeg(lat))
PerDay(om) == RDiv(RMul(om, "86400"), RMul("2", RPi))
FromPerDay(f) == RDiv(RProd3(f, "2", RPi), "86400")
(* w^3 - g h (k^2 + beta (2n+1)/c) w - k beta g h relative to its middle term *)
Stiff(k, n, c, b) == RMul(RSq(c), RAdd(RSq(k), RDiv(RMul(b, Str(2 * n + 1)), c)))
Cubic(w, k, n, c, b) == RSub(RSub(RPow(w, 3), RMul(Stiff(k, n, c, b), w)), RProd3(k, b, RSq(c)))
IsRoot(w, k, n, c, b) == RLeq(RAbs(Cubic(w, k, n, c, b)), RMul("0.00001", RMul(Stiff(k, n, c, b), RAbs(w))))
Slow(w, k, n, c, b) == RLt(RMul("3", RSq(w)), Stiff(k, n, c, b))
CurveOk(kind, n, wn, out, h, lat) ==
  LET k == K(wn, lat)  c == Speed(h)  b == BetaAt(lat)
      east == RGt(wn, "0")  west == RLt(wn, "0")
      w == FromPerDay(out)
      quad(s) == RProd3(k, c, RDiv(RAdd("1", RMul(s, RSqrt(RAdd("1", RDiv(RMul("4", b), RMul(RSq(k), c)))))), "2"))
  IN CASE kind = "Kelvin" -> Close(out, IF east THEN PerDay(RMul(c, k)) ELSE "undef")
       [] kind = "MRG" -> Close(out, IF west THEN PerDay(quad("-1")) ELSE "undef")
       [] kind = "EIG0" -> Close(out, IF east THEN PerDay(quad("1")) ELSE "undef")
       [] kind = "ER" -> IF ~west THEN out = "none" ELSE out # "none" /\ RGt(w, "0") /\ IsRoot(w, k, n, c, b) /\ Slow(w, k, n, c, b)
       [] kind = "EIG" -> IF ~east THEN out = "none" ELSE out # "none" /\ RGt(w, "0") /\ IsRoot(w, k, n, c, b) /\ ~Slow(w, k, n, c, b)
       [] kind = "WIG" -> IF ~west THEN out = "none" ELSE out # "none" /\ RGt(w, "0") /\ IsRoot(w, k, n, c, b) /\ ~Slow(w, k, n, c, b)

(* ------------------------------------------------------------ longitudes                                      *)
Flip(lon) == IF \E k \in DOMAIN lon : RLt(lon[k], "0") THEN [k \in DOMAIN lon |-> IF RLt(lon[k], "0") THEN RAdd(lon[k], "360") ELSE lon[k]]
             ELSE [k \in DOMAIN lon |-> IF RGeq(lon[k], "180") THEN RSub(lon[k], "360") ELSE lon[k]]

(* ------------------------------------------------------------ verdicts                                        *)
SmoothVerdict(e) == IF CloseSeq(e.out, Smooth(e.q)) THEN {} ELSE {"smooth of " \o ToString(e.q) \o " is " \o ToString(e.out)}
WindowVerdict(e) == IF CloseSeq(e.out, Window(e.n, e.pct)) THEN {} ELSE {"window of " \o Str(e.n) \o " is " \o ToString(e.out)}
(* x and out as rows per latitude of all other values *)
PartVerdict(e) == (IF CloseTab(e.out, Part(e.x, e.lat, e.sym)) THEN {} ELSE {"part " \o (IF e.sym THEN "symmetric" ELSE "antisymmetric") \o " for latitudes " \o ToString(e.lat) \o " is " \o ToString(e.out)})
                  \union (IF e.kept THEN {} ELSE {"part changed its input"})
Differs(out, want, kinds) == {"of kind " \o Str(v) \o " at frequency " \o Str(i) \o ": " \o ToString(out[v][i]) :
   <<v, i>> \in {p \in (1..kinds) \X (DOMAIN want[1]) : ~CloseSeq(out[p[1]][p[2]], want[p[1]][p[2]])}}
Shape(out, kinds, n) == Len(out) = 8 /\ \A v \in 1..kinds : Len(out[v]) = n
SegmentVerdict(e) ==
  LET fr == IF e.full THEN [k \in 1..(2 * (e.nt \div 2) + 1) |-> k - 1 - (e.nt \div 2)] ELSE OneSided(e.nt)
      want == Spectra(e.x, e.y, fr, e.nt, e.nl, IF e.full THEN -1 ELSE 1)
  IN IF ~Shape(e.out, 4, Len(fr)) THEN {"segment has " \o Str(Len(e.out[1])) \o " frequencies instead of " \o Str(Len(fr))}
     ELSE {"segment spectrum " \o s : s \in Differs(e.out, want, 4)}
PhaseVerdict(e) ==
  LET want == [v \in 1..4 |-> [i \in DOMAIN e.s[1] |-> [j \in DOMAIN e.s[1][1] |-> Derived(e.s[1][i][j], e.s[2][i][j], e.s[3][i][j], e.s[4][i][j])[v]]]]
  IN {"phase spectrum " \o s : s \in Differs(SubSeq(e.out, 5, 8), want, 4)} \union {"phase changed spectrum " \o s : s \in Differs(e.out, e.s, 4)}
RowsVerdict(e) ==
  LET n == Len(e.s[1])
      want == [v \in 1..4 |-> LET cols == [j \in DOMAIN e.s[1][1] |-> Smooth([i \in 1..(n - e.zero) |-> e.s[v][e.zero + i][j]])]
                              IN [i \in 1..n |-> [j \in DOMAIN e.s[1][1] |-> IF i <= e.zero THEN (IF e.s[v][i][j] = "none" THEN "undef" ELSE e.s[v][i][j]) ELSE cols[j][i - e.zero]]]]
  IN {"smoothed spectrum " \o s : s \in Differs(e.out, want, 4)}
CrossVerdict(e) ==
  LET want == CrossSpectra(e.x, e.y, e.len, e.over)
      st == Starts(Len(e.x[1][1]), e.len, e.over)
      dof == RMul("2.667", Str(Len(st)))
  IN (IF e.nseg = Len(st) THEN {} ELSE {"cross used " \o Str(e.nseg) \o " segments instead of " \o Str(Len(st))})
     \union (IF CloseSeq(e.freq, [k \in 1..(e.len \div 2 + 1) |-> RDiv(Str(k - 1), Str(e.len))]) THEN {} ELSE {"cross frequencies " \o ToString(e.freq)})
     \union (IF CloseSeq(e.wave, [k \in DOMAIN Waves(Len(e.x[1])) |-> Str(Waves(Len(e.x[1]))[k])]) THEN {} ELSE {"cross wavenumbers " \o ToString(e.wave)})
     \union (IF Close(e.dof, dof) THEN {} ELSE {"cross degrees of freedom " \o e.dof})
     \union (IF \A k \in DOMAIN e.p : Close(e.level[k], RExp(RMul(RSub(RDiv(dof, "2"), "1"), RLn(e.p[k])))) THEN {} ELSE {"cross levels " \o ToString(e.level)})
     \union (IF ~Shape(e.out, 8, e.len \div 2 + 1) THEN {"cross has " \o Str(Len(e.out[1])) \o " frequencies"} ELSE {"cross spectrum " \o s : s \in Differs(e.out, want, 8)})
     \union (IF e.kept THEN {} ELSE {"cross changed its input"})
(* kept: pairs (frequency, eastward wavenumber) left by the mask; same: the coefficients left are those given *)
MaskVerdict(e) ==
  LET got == {<<e.left[k][1], e.left[k][2]>> : k \in DOMAIN e.left}  want == Region(e)
  IN (IF got = want THEN {} ELSE {"mask of " \o e.wave \o " keeps also " \o ToString(got \ want) \o " and loses " \o ToString(want \ got)})
     \union (IF e.same THEN {} ELSE {"mask alters coefficients or its input"})
KfVerdict(e) == IF CloseTab(e.out, Filtered(e.x, e)) THEN {} ELSE {"wavefilter of " \o e.wave \o " gives " \o ToString(e.out)}
CurveVerdict(e) == (IF CloseSeq(e.wn, e.want) THEN {} ELSE {"curve wavenumbers " \o ToString(e.wn)})
  \union {"curve " \o e.kind \o " n=" \o Str(e.n) \o " at " \o e.wn[k] \o " is " \o e.out[k] : k \in {j \in DOMAIN e.wn : ~CurveOk(e.kind, e.n, e.wn[j], e.out[j], e.h, e.lat)}}
FlipVerdict(e) ==
  LET want == Flip(e.lon)
      pairs == {<<k, j>> \in (DOMAIN e.lon) \X (DOMAIN e.out) : Close(e.out[j], want[k])}
  IN (IF Len(e.out) = Len(e.lon) /\ \A j \in 1..(Len(e.out) - 1) : RLt(e.out[j], e.out[j + 1]) THEN {} ELSE {"flip longitudes " \o ToString(e.out) \o " of " \o ToString(e.lon)})
     \union (IF \A k \in DOMAIN e.lon : \E j \in DOMAIN e.out : Close(e.out[j], want[k]) /\ e.cols[j] = e.x[k] THEN {} ELSE {"flip data do not follow longitudes " \o ToString(e.lon)})
     \union (IF e.kept THEN {} ELSE {"flip changed its input"})
SaveVerdict(e) == IF e.read = e.given THEN {} ELSE {"save of spectra differs when read"}

SpacetimeVerdict(e) ==
  IF e.err # "" THEN {e.op \o " failed " \o e.err}
  ELSE CASE e.op = "smooth" -> SmoothVerdict(e) [] e.op = "window" -> WindowVerdict(e) [] e.op = "part" -> PartVerdict(e) [] e.op = "segment" -> SegmentVerdict(e)
         [] e.op = "phase" -> PhaseVerdict(e) [] e.op = "rows" -> RowsVerdict(e) [] e.op = "cross" -> CrossVerdict(e) [] e.op = "mask" -> MaskVerdict(e) [] e.op = "kf" -> KfVerdict(e)
         [] e.op = "curve" -> CurveVerdict(e) [] e.op = "flip" -> FlipVerdict(e) [] e.op = "save" -> SaveVerdict(e)
         [] e.op = "sizes" -> (IF e.none THEN {} ELSE {"sizes differ but spectra are given"})
         [] OTHER -> {"unknown " \o e.op}
================================================================================
