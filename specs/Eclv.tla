----------------------------------- MODULE Eclv ---------------------------------
(* Economic value of a forecast for users with cost/loss ratio a: the saving in mean expense over acting on     *)
(* climatology alone, relative to the saving of perfect forecasts.  Counts q = [a, b, c, d] (hits, false        *)
(* alarms, misses, correct rejections).                                                                         *)
EXTENDS Ctc, SequencesExt

ClimExpense(q, x) == RMin(x, Baser(q))
FcstExpense(q, x) == RDiv(RAdd(RMul(x, RAdd(q.a, q.b)), q.c), N(q))
PerfExpense(q, x) == RMul(x, Baser(q))
HasValue(q) == RDefined(RSum(<<q.a, q.b, q.c, q.d>>)) /\ RLt(0, RAdd(q.a, q.c)) /\ RLt(0, RAdd(q.b, q.d))
Value(q, x) == IF HasValue(q) THEN RDiv(RSub(ClimExpense(q, x), FcstExpense(q, x)), RSub(ClimExpense(q, x), PerfExpense(q, x))) ELSE Undef
(* probability lines: rows [thr, oy, on], a warning when the probability exceeds the threshold; *)
(* missing counts do not take part *)
Present(x) == IF x \in Missing THEN "0" ELSE x
Split(rows, x) ==
  LET sum(f(_)) == RSum([k \in DOMAIN rows |-> Present(f(rows[k]))])
  IN [a |-> sum(LAMBDA r : IF RGt(r.thr, x) THEN r.oy ELSE "0"), b |-> sum(LAMBDA r : IF RGt(r.thr, x) THEN r.on ELSE "0"),
      c |-> sum(LAMBDA r : IF RGt(r.thr, x) THEN "0" ELSE r.oy), d |-> sum(LAMBDA r : IF RGt(r.thr, x) THEN "0" ELSE r.on)]
Grid(q, grid, base) == RSort(IF base THEN Append(grid, Baser(q)) ELSE grid)

Near(o, v) == RDefined(o) /\ RNear(o, v, "0.0000000002", "0.000000001")
(* one curve from the functions: e.rows (ctc: <<a,b,c,d>>; pct: records), e.grid, e.base, e.cl, e.V *)
CtcPool(rows) == LET col(j) == IF rows # <<>> /\ \A k \in DOMAIN rows : rows[k][j] \in Missing THEN Undef ELSE RSum([k \in DOMAIN rows |-> Present(rows[k][j])]) IN [a |-> col(1), b |-> col(2), c |-> col(3), d |-> col(4)]
Counts(e) == IF e.lt = "pct" THEN Split(e.rows, e.thr) ELSE CtcPool(e.rows)
FnVerdict(e) ==
  LET q == Counts(e)
  IN IF e.err # "none" THEN {"raised " \o e.err}
     ELSE IF ~HasValue(q) THEN IF e.none THEN {} ELSE {"value although undefined"}
     ELSE IF e.none THEN {"missing although defined"}
     ELSE LET g == Grid(q, e.grid, e.base)
       IN (IF Len(e.cl) = Len(g) /\ Len(e.V) = Len(g) /\ (\A k \in DOMAIN g : Near(e.cl[k], g[k])) THEN {} ELSE {"ratios differ"})
          \cup (IF Len(e.V) = Len(g) THEN {Say("value at " \o ToString(e.cl[k]), e.V[k], Value(q, g[k])) : k \in {j \in DOMAIN g : ~Near(e.V[j], Value(q, g[j]))}} ELSE {})
          \cup (IF Near(e.vmax, RSub(H(q), F(q))) \/ Agree7(e.vmax, RSub(H(q), F(q))) THEN {} ELSE {Say("vmax", e.vmax, RSub(H(q), F(q)))})
          \cup {Say(x[1], x[2], x[3]) : x \in {y \in {<<"hit", e.H, H(q)>>, <<"falarm", e.F, F(q)>>, <<"base", e.s, Baser(q)>>} : ~Agree7(y[2], y[3])}}

(* the file driver.  e.series: list of [name, vals] ; rows carry s (record of series fields), case, and counts;  *)
(* output lines carry s, thr, x, y, lo, hi, n *)
Points(e) == IF e.models = <<>> THEN << "-" >> ELSE e.models
InPoint(e, r, m) == e.models = <<>> \/ r.m = m
Common(e) == {c \in {e.rows[k].case : k \in DOMAIN e.rows} : \A j \in DOMAIN e.models : \E k \in DOMAIN e.rows : e.rows[k].m = e.models[j] /\ e.rows[k].case = c}
Kept(e) == IF e.ee THEN SelectSeq(e.rows, LAMBDA r : r.case \in Common(e)) ELSE e.rows
PointRows(e, m) == SelectSeq(Kept(e), LAMBDA r : InPoint(e, r, m))
Thresholds(e, m) == IF e.lt = "ctc" THEN <<"0">>
                    ELSE LET rs == PointRows(e, m) IN RSort(SetToSeq({RNorm(rs[k].thr) : k \in DOMAIN rs}))
LineOk(o, x, y, n, boot) ==
  (IF RDefined(x) THEN Agree7(o.x, x) ELSE o.x \in Missing) /\ Agree7(o.y, y) /\ o.n = n
  /\ (IF boot /\ RDefined(y) THEN (o.lo \in Missing /\ o.hi \in Missing) \/ (RDefined(o.lo) /\ RDefined(o.hi) /\ RLeq(o.lo, o.hi))
      ELSE o.lo \in Missing /\ o.hi \in Missing)
CurveLines(e, m, x) ==
  LET rs == PointRows(e, m)
      q == IF e.lt = "pct" THEN Split(rs, x) ELSE CtcPool([k \in DOMAIN rs |-> rs[k].c])
      g == IF HasValue(q) THEN Grid(q, e.grid, e.base) ELSE IF e.base THEN Append(RSort(e.grid), Undef) ELSE RSort(e.grid)
  IN [k \in DOMAIN g |-> [m |-> m, thr |-> x, x |-> g[k], y |-> IF RDefined(g[k]) THEN Value(q, g[k]) ELSE Undef, n |-> Len(rs)]]
Cat(ss) == FlattenSeq(ss)
Lines(e) == IF Kept(e) = <<>> THEN <<>> ELSE Cat([j \in DOMAIN Points(e) |-> LET m == Points(e)[j] IN Cat([t \in DOMAIN Thresholds(e, m) |-> CurveLines(e, m, Thresholds(e, m)[t])])])
RunVerdict(e) ==
  IF e.err # "none" THEN {"raised " \o e.err}
  ELSE LET ls == IF e.append THEN Lines(e) \o Lines(e) ELSE Lines(e)     \* a run that appends keeps the lines before
    IN IF Len(ls) # Len(e.out) THEN {"lines " \o ToString(Len(e.out)) \o " instead of " \o ToString(Len(ls))}
       ELSE {"line " \o ToString(k) \o " is " \o ToString(e.out[k]) \o " instead of " \o ToString(ls[k]) :
             k \in {j \in DOMAIN ls : ~(LineOk(e.out[j], ls[j].x, ls[j].y, ls[j].n, e.boot) /\ e.out[j].m = ls[j].m /\ REq(e.out[j].thr, ls[j].thr))}}

EclvVerdict(e) == IF e.op = "curve" THEN FnVerdict(e) ELSE RunVerdict(e)
================================================================================
