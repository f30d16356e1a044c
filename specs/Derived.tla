--------------------------------- MODULE Derived --------------------------------
(* Derived curves of the aggregation run.  A derived series names two component points (a value for every series *)
(* dimension, and a statistic) and an operation.                                                                *)
EXTENDS Agg

(* ------------------------------------------------------------ the perfect score of a statistic                *)
NoPerfect == {"BASER", "FMEAN", "FBAR", "FSTDEV", "OBAR", "OSTDEV", "FRANK_TIES", "ORANK_TIES", "RANKS", "VL1L2_FBAR", "VL1L2_OBAR",
  "VL1L2_FSTDEV", "VL1L2_OSTDEV", "VL1L2_FOSTDEV", "PSTD_BASER", "PSTD_RESOLUTION", "PSTD_UNCERTAINTY", "NBR_UFSS", "NBR_F_RATE",
  "NBR_O_RATE", "NBR_BASER", "NBR_FMEAN"}
ZeroPerfect == {"POFD", "FAR", "ESTDEV", "MAE", "MSE", "BCMSE", "RMSE", "E10", "E25", "E50", "E75", "E90", "EIQR", "MAD", "ME2", "ME",
  "ODDS", "LODDS", "VL1L2_MSE", "VL1L2_RMSE", "VL1L2_RMSVE", "PSTD_BRIER", "PSTD_RELIABILITY", "NBR_FBS", "VL1L2_SPEED_ERR",
  "NBR_POFD", "NBR_FAR", "NBR_ODDS", "BCRMSE", "ECNT_ME", "ECNT_RMSE", "CRPS", "ECNT_CRPS", "ECNT_MAE", "ECNT_MAE_OERR",
  "ECNT_ME_GE_OBS", "ECNT_ME_LT_OBS"}
OnePerfect == {"ACC", "FBIAS", "PODY", "PODN", "CSI", "GSS", "HK", "HSS", "ORSS", "EDS", "SEDS", "EDI", "SEDI", "BAGSS", "PR_CORR",
  "SP_CORR", "KT_CORR", "MBIAS", "ANOM_CORR", "ANOM_CORR_RAW", "VL1L2_BIAS", "VL1L2_CORR", "PSTD_BSS", "PSTD_BSS_SMPL", "NBR_FSS",
  "NBR_AFSS", "VAL1L2_ANOM_CORR", "NBR_ACC", "NBR_FBIAS", "NBR_PODY", "PSTD_ROC_AUC", "NBR_PODN", "NBR_CSI", "NBR_GSS", "NBR_HK",
  "NBR_HSS", "ECNT_BIAS_RATIO"}
Perfect(s) == IF s \in ZeroPerfect THEN "0" ELSE IF s \in OnePerfect THEN "1" ELSE "undef"
(* the first mean is farther from the perfect score: "yes", "no", or "any" within rounding of a tie *)
Farther(s, m1, m2) ==
  LET d1 == RAbs(RSub(m1, Perfect(s)))  d2 == RAbs(RSub(m2, Perfect(s)))
  IN IF ~RDefined(Perfect(s)) THEN "no"
     ELSE IF REq(m1, m2) \/ (Perfect(s) = "0" /\ REq(d1, d2)) THEN "no"
     ELSE IF RNear(d1, d2, "0.000000000001", "0.000000000001") THEN "any"
     ELSE IF RGt(d1, d2) THEN "yes" ELSE "no"
(* the admissible signed significances *)
Signed(s, m1, m2, p) ==
  IF s \in NoPerfect THEN {"undef"}
  ELSE CASE Farther(s, m1, m2) = "yes" -> {RNeg(p)} [] Farther(s, m1, m2) = "no" -> {p} [] OTHER -> {p, RNeg(p)}

(* ------------------------------------------------------------ the operations                                  *)
Comb(op, a, b) ==
  IF a \in Missing \/ b \in Missing THEN "undef"
  ELSE CASE op \in {"DIFF", "DIFF_SIG"} -> RSub(a, b)
         [] op = "RATIO" -> RDiv(a, b)
         [] op = "SS" -> RDiv(RSub(a, b), a)
         [] op = "SINGLE" -> a
Sign == [DIFF |-> "-", DIFF_SIG |-> "-", RATIO |-> "/", SS |-> " and ", SINGLE |-> "-"]
Name(d) == d.op \o "(" \o d.first.text \o Sign[d.op] \o d.second.text \o ")"

IndyVals(ax) == IF Len(ax.dims) > ax.series THEN ax.dims[ax.series + 1].vals ELSE <<[label |-> "", members |-> <<>>]>>
HasIndy(ax) == Len(ax.dims) > ax.series
(* the base point a component denotes at an independent value *)
CompPt(ax, c, iv) == c.vals \o (IF HasIndy(ax) THEN <<iv>> ELSE <<>>) \o <<[label |-> c.stat, members |-> <<c.stat>>]>>
DerivedPoints(ax) == FlattenSeq([k \in DOMAIN ax.derived |-> [j \in DOMAIN IndyVals(ax) |-> [d |-> ax.derived[k], iv |-> IndyVals(ax)[j]]]])
(* the dimension the operation runs over: the first series dimension in which the components differ, else the last *)
OpDim(ax, d) == LET df == {k \in 1..ax.series : d.first.vals[k] # d.second.vals[k]}
                IN IF df = {} THEN ax.series ELSE CHOOSE k \in df : \A j \in df : k <= j

DLabels(ax, x) ==
  LET d == x.d IN [k \in 1..ax.series |-> IF k = OpDim(ax, d) THEN Name(d) ELSE d.first.vals[k].label]
                  \o (IF HasIndy(ax) THEN <<x.iv.label>> ELSE <<>>)
                  \o <<IF d.first.stat = d.second.stat THEN d.first.stat ELSE d.first.stat \o "," \o d.second.stat>>

(* several values for one valid time and lead, beyond the members of a grouped series value *)
RECURSIVE Allowed(_)
Allowed(vals) == IF vals = <<>> THEN 1 ELSE Len(Head(vals).members) * Allowed(Tail(vals))
Case(r) == <<r.lab.fcst_valid_beg, r.lab.fcst_lead>>
Ambiguous(rows, ax, c, iv) == LET rs == Rows(rows, ax, CompPt(ax, c, iv)) IN
   \E k \in DOMAIN rs : Cardinality({j \in DOMAIN rs : Case(rs[j]) = Case(rs[k])}) > Allowed(c.vals)
Empty(rows, ax, c, iv) == Rows(rows, ax, CompPt(ax, c, iv)) = <<>>
Refused(rows, ax) == \E k \in DOMAIN DerivedPoints(ax) : LET x == DerivedPoints(ax)[k] IN
   /\ x.d.op # "SINGLE"
   /\ ~Empty(rows, ax, x.d.first, x.iv) /\ ~Empty(rows, ax, x.d.second, x.iv)
   /\ Ambiguous(rows, ax, x.d.first, x.iv) \/ Ambiguous(rows, ax, x.d.second, x.iv)

(* the expectation is built on the written component lines, which AggVerdict compares with their own rows *)
CompLine(e, ax, base, c, iv) == LET pt == CompPt(ax, c, iv) ps == Points(ax) IN
   e.lines[base + (CHOOSE k \in DOMAIN ps : ps[k] = pt)]
DBad(e, ax, base, x, line) ==
  LET fs == Fields(ax)  ls == DLabels(ax, x)
      a == CompLine(e, ax, base, x.d.first, x.iv)  b == CompLine(e, ax, base, x.d.second, x.iv)
      none == a.n = "0" \/ b.n = "0"
      tol == IF e.iterations = 1 \/ a.n # b.n THEN "0.0000050001" ELSE Eps7
      missing == none \/ a.value \in Missing \/ b.value \in Missing
      vs == IF x.d.op = "DIFF_SIG" THEN (IF missing THEN {"undef"} ELSE Signed(x.d.first.stat, a.value, b.value, "1"))
            ELSE {IF none THEN "undef" ELSE Comb(x.d.op, a.value, b.value)}
      (* the significance over replicates is judged by SigVerdict; that of two statistics has no perfect score *)
      judged == x.d.op # "DIFF_SIG" \/ missing \/ (x.d.first.stat = x.d.second.stat /\ (e.iterations = 1 \/ a.n # b.n))
  IN {"derivedlabel " \o fs[k] \o " is " \o line.lab[fs[k]] \o " expected " \o ls[k] : k \in {j \in DOMAIN fs : line.lab[fs[j]] # ls[j]}}
     \union (IF line.lab.fcst_var = ax.var THEN {} ELSE {"derivedlabel fcst_var is " \o line.lab.fcst_var})
     \union (IF ~judged \/ \E v \in vs : AgreeTol(line.value, v, tol, "0.000001") THEN {}
             ELSE {"derived " \o Say(x.d.op, line.value, CHOOSE v \in vs : TRUE) \o " from " \o a.value \o " and " \o b.value})
     \union (IF e.iterations = 1 /\ (line.low # "none" \/ line.high # "none") THEN {"limits without replicates"} ELSE {})

AxisSize(ax) == Len(Points(ax)) + Len(DerivedPoints(ax))
RECURSIVE Base(_, _)
Base(axes, k) == IF k = 1 THEN 0 ELSE Base(axes, k - 1) + AxisSize(axes[k - 1])
AxisBad(e, k) ==
  LET ax == e.axes[k]  b == Base(e.axes, k)  ps == Points(ax)  ds == DerivedPoints(ax)
  IN UNION {LineBad(e, ax, ps[j], e.lines[b + j]) : j \in DOMAIN ps}
     \union UNION {DBad(e, ax, b, ds[j], e.lines[b + Len(ps) + j]) : j \in DOMAIN ds}

RunVerdict(e) ==
  LET refused == \E k \in DOMAIN e.axes : Refused(e.rows, e.axes[k])  n == Base(e.axes, Len(e.axes) + 1)
  IN IF refused THEN (IF e.err = "exc:NameError" THEN {} ELSE {"accepted several values for one valid time and lead " \o e.err})
     ELSE IF e.err # "" THEN {"failed " \o e.err}
     ELSE IF Len(e.lines) # n THEN {"lines " \o ToString(Len(e.lines)) \o " expected " \o ToString(n)}
     ELSE UNION {AxisBad(e, k) : k \in DOMAIN e.axes}
(* ------------------------------------------------------------ significance over replicates                    *)
(* share of the replicates, centred on their mean, within the difference of the data; ties within rounding      *)
Shares(v, reps) ==
  LET m == RMean(reps)  n == Len(reps)
      within(x) == Cardinality({k \in DOMAIN reps : RLeq(RAbs(RSub(reps[k], m)), RAdd(RAbs(v), x))})
  IN {RDiv(k, n) : k \in within("-0.000001")..within("0.000001")}
SigVerdict(e) ==
  IF e.err # "" THEN {"failed " \o e.err}
  ELSE LET ok == UNION {Signed(e.stat, e.a, e.b, p) : p \in Shares(e.v, e.reps)}
       IN IF \E p \in ok : AgreeTol(e.out, p, "0.000001", "0.000001") THEN {}
          ELSE {"significance " \o Say(e.stat, e.out, CHOOSE p \in ok : TRUE)}
(* the operation alone, on lists of values *)
CalcVerdict(e) ==
  LET bad == e.a = <<"none">> \/ e.b = <<"none">> \/ Len(e.a) # Len(e.b) \/ (\E k \in DOMAIN e.a : e.a[k] \in Missing) \/ (\E k \in DOMAIN e.b : e.b[k] \in Missing)
      v == IF bad THEN <<>> ELSE [k \in DOMAIN e.a |-> Comb(e.name, e.a[k], e.b[k])]
      undef == bad \/ \E k \in DOMAIN v : ~RDefined(v[k])
  IN IF undef THEN (IF e.out = <<"none">> THEN {} ELSE {"calc not missing " \o ToString(e.out)})
     ELSE IF Len(e.out) = Len(v) /\ \A k \in DOMAIN v : AgreeTol(e.out[k], v[k], "0.000000000001", "0.000000000001") THEN {} ELSE {"calc " \o e.name \o " got " \o ToString(e.out) \o " expected " \o ToString(v)}
NameVerdict(e) == IF e.out = Name(e) THEN {} ELSE {"name " \o e.out \o " expected " \o Name(e)}
EtbVerdict(e) == IF e.err = "" THEN {} ELSE {"run failed " \o e.err}
DerivedVerdict(e) == CASE e.op = "run" -> RunVerdict(e) [] e.op = "calc" -> CalcVerdict(e) [] e.op = "sig" -> SigVerdict(e) [] e.op = "etb" -> EtbVerdict(e) [] OTHER -> NameVerdict(e.d)
================================================================================
