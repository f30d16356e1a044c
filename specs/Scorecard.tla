-------------------------------- MODULE Scorecard -------------------------------
(* Scorecards: for a pair of component points (see Derived) and every independent value, one line with the mean *)
(* difference, the mean of the first component, or the significance of the mean paired difference.              *)
EXTENDS Derived

(* ------------------------------------------------------------ significance of paired values                   *)
Diffs(a, b) == [k \in DOMAIN a |-> RSub(a[k], b[k])]
(* one minus the two-sided p-value of the paired t-test; missing for a single pair or differences that do not vary *)
Level(a, b) ==
  LET d == Diffs(a, b)  n == Len(d)  var == RVarS(d)
  IN IF n < 2 \/ ~RNonZero(var) THEN "undef"
     ELSE RSub("1", RTTwoSided(RDiv(RMean(d), RSqrt(RDiv(var, n))), n - 1))
Ncar(s, a, b) == LET p == Level(a, b) IN IF ~RDefined(p) THEN {"undef"} ELSE Signed(s, RMean(a), RMean(b), p)

(* both neighbours of a value that double precision may round either way *)
Rounds(x, k) == {RHalfUp(RSub(x, "0.0000000001"), k), RHalfUp(RAdd(x, "0.0000000001"), k)}
Starts(s, pre) == LET c == SChars(s) p == SChars(pre) IN Len(c) >= Len(p) /\ SubSeq(c, 1, Len(p)) = p
(* critical values of the 95, 99 and 99.9 percent levels for a number of days *)
Crit(nd) == CASE nd >= 80 -> <<"1.960", "2.576", "3.291">>
              [] nd >= 40 /\ nd < 80 -> <<"2.0", "2.66", "3.46">>
              [] nd >= 20 /\ nd < 40 -> <<"2.042", "2.75", "3.646">>
              [] OTHER -> <<"2.228", "3.169", "4.587">>
Rating(ds, ds99, ds999) ==
  CASE RGeq(ds999, "1") -> "1"
    [] RLt(ds999, "1") /\ RGeq(ds99, "1") -> "99/100"
    [] RLt(ds99, "1") /\ RGeq(ds, "1") -> "19/20"
    [] RLt(ds, "1") /\ RGt(ds, "-1") -> "0"
    [] RLeq(ds, "-1") /\ RGt(ds99, "-1") -> "-19/20"
    [] RLeq(ds99, "-1") /\ RGt(ds999, "-1") -> "-99/100"
    [] OTHER -> "-1"
Ratings(ds, nd) == LET c == Crit(nd) IN
  UNION {{Rating(ds, x, y) : x \in Rounds(RDiv(RMul(ds, c[1]), c[2]), 3)} : y \in Rounds(RDiv(RMul(ds, c[1]), c[3]), 3)}
(* scaled difference of the means, positive when the first is better *)
Scaled(s, m1, m2, w) ==
  IF Starts(s, "ME") \/ Starts(s, "BIAS")
  THEN LET x == RDiv(RAbs(RSub(m2, m1)), w) IN IF RLt(RAbs(m2), RAbs(m1)) THEN RNeg(x) ELSE x
  ELSE IF Starts(s, "RMSE") \/ Starts(s, "RMSVE") THEN RDiv(RSub(m2, m1), w)
  ELSE RDiv(RSub(m1, m2), w)
HalfWidth(a, b, nd) ==
  LET d == Diffs(b, a)  m == RDiv(RSum(d), nd)
      v == RDiv(RSum([k \in DOMAIN d |-> RSq(RSub(d[k], m))]), nd)
  IN IF Len(a) < 2 THEN "undef" ELSE RDiv(RMul("1.96", RSqrt(v)), RSqrt(Len(a) - 1))
Emc(s, a, b, nd) ==
  LET w == HalfWidth(a, b, nd) IN
  IF ~RDefined(w) THEN {"undef"}
  ELSE UNION {UNION {UNION {
         IF ~RNonZero(ww) THEN {"undef"}
         ELSE UNION {Ratings(ds, nd) : ds \in Rounds(Scaled(s, m1, m2, ww), 3)}
       : m2 \in Rounds(RMean(b), 6)} : m1 \in Rounds(RMean(a), 6)} : ww \in Rounds(w, 6)}

(* ------------------------------------------------------------ the lines of a run                              *)
SName(d) == d.op \o "(" \o d.first.text \o "-" \o d.second.text \o ")"
RowsOf(e, c, iv) == Rows(e.rows, e.ax, CompPt(e.ax, c, iv))
Values(rs) == [k \in DOMAIN rs |-> rs[k].value]
(* the rows of the first whose case the second has, and their partners *)
Common(r1, r2) == SelectSeq(r1, LAMBDA r : \E j \in DOMAIN r2 : Case(r2[j]) = Case(r))
Partners(r1, r2) == LET c == Common(r1, r2) IN [k \in DOMAIN c |-> r2[CHOOSE j \in DOMAIN r2 : Case(r2[j]) = Case(c[k])]]
Dup(rs) == \E j, k \in DOMAIN rs : j # k /\ Case(rs[j]) = Case(rs[k])

Present(e, x) == LET r1 == RowsOf(e, x.d.first, x.iv) r2 == RowsOf(e, x.d.second, x.iv) IN
  r1 # <<>> /\ r2 # <<>> /\ (x.d.op = "SINGLE" \/ Common(r1, r2) # <<>>)
Unclear(e, x) == LET r1 == RowsOf(e, x.d.first, x.iv) r2 == RowsOf(e, x.d.second, x.iv) IN
  x.d.op # "SINGLE" /\ r1 # <<>> /\ r2 # <<>> /\ (Dup(r1) \/ Dup(r2))
SExp(e, x) ==
  LET r1 == RowsOf(e, x.d.first, x.iv)  r2 == RowsOf(e, x.d.second, x.iv)
      a == Values(Common(r1, r2))  b == Values(Partners(r1, r2))
  IN CASE x.d.op = "SINGLE" -> {RMean(Values(r1))}
       [] x.d.op = "DIFF" -> {RMean(Diffs(a, b))}
       [] e.rule = "EMC" -> Emc(x.d.first.stat, a, b, e.ndays)
       [] OTHER -> Ncar(x.d.first.stat, a, b)
SLabels(e, x) == LET ax == e.ax d == x.d IN
  [f \in {ax.dims[k].field : k \in 1..ax.series} |->
     LET k == CHOOSE j \in 1..ax.series : ax.dims[j].field = f
     IN IF f = "model" THEN SName(d)
        ELSE IF f = "fcst_lead" \/ Len(d.first.vals[k].members) = 1 THEN d.first.vals[k].label ELSE ""]
SLineBad(e, x, line) ==
  LET ls == SLabels(e, x)  exp == SExp(e, x)
      indy == IF HasIndy(e.ax) THEN e.ax.dims[e.ax.series + 1].field ELSE ""
  IN {"label " \o f \o " is " \o line.lab[f] \o " expected " \o ls[f] : f \in {g \in DOMAIN ls : ls[g] # "" /\ ~Eq(line.lab[g], ls[g])}}
     \union (IF indy # "" /\ Len(x.iv.members) = 1 /\ ~Eq(line.lab[indy], x.iv.label) THEN {"label " \o indy \o " is " \o line.lab[indy]} ELSE {})
     \union (IF line.lab.stat_name # x.d.first.stat THEN {"label stat_name is " \o line.lab.stat_name} ELSE {})
     \union (IF \E v \in exp : AgreeTol(line.value, v, "0.0000000501", "0.000000001") THEN {}
             ELSE {"value " \o Say(x.d.op \o " " \o e.rule \o " " \o x.d.first.stat, line.value, CHOOSE v \in exp : TRUE)})
Expected(e) == SelectSeq(DerivedPoints(e.ax), LAMBDA x : Present(e, x))
CardVerdict(e) ==
  IF \E k \in DOMAIN DerivedPoints(e.ax) : Unclear(e, DerivedPoints(e.ax)[k])
  THEN (IF e.err = "exc:NameError" THEN {} ELSE {"accepted several values for one valid time and lead " \o e.err})
  ELSE IF e.err # "" THEN {"failed " \o e.err}
  ELSE LET ex == Expected(e) IN
       IF Len(e.lines) # Len(ex) * e.times THEN {"lines " \o ToString(Len(e.lines)) \o " expected " \o ToString(Len(ex) * e.times)}
       ELSE UNION {SLineBad(e, ex[((k - 1) % Len(ex)) + 1], e.lines[k]) : k \in DOMAIN e.lines}
PerfectVerdict(e) ==
  LET exp == Signed(e.stat, e.m1, e.m2, e.p) IN
  IF \E v \in exp : AgreeTol(e.out, v, "0", "0.000000000001") THEN {} ELSE {"perfect " \o Say(e.stat, e.out, CHOOSE v \in exp : TRUE)}
ScoreVerdict(e) == IF e.op = "run" THEN CardVerdict(e) ELSE PerfectVerdict(e)
================================================================================
