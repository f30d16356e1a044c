---------------------------------- MODULE PSums ---------------------------------
(* Scores from partial-sum lines.  A table is a record column -> sequence (one entry per line); t.total holds   *)
(* the number of matched pairs of each line.  Pooling lines means averaging the sums with these as weights.     *)
EXTENDS Conf

W(t) == RSum(t.total)
M(t, c) == RDiv(RDot(t[c], t.total), W(t))                       \* total-weighted mean of a column

(* radicand-based agreement: o observed, v exact radicand, tol its uncertainty *)
AgreeSqrt(o, v, tol) ==
  IF ~RDefined(v) \/ RLt(v, RNeg(tol)) THEN o \in Missing
  ELSE IF RLeq(v, tol) THEN o \in Missing \/ (RLeq(0, o) /\ RLeq(RSq(o), RAdd(RMul(3, tol), "1e-12")))
  ELSE RDefined(o) /\ LET s == RSqrt(v) IN RNear(o, s, RAdd("0.00000006", RDiv(tol, s)), "0.000000001")
NearWithin(o, v, tol) == AgreeTol(o, v, tol, "0.000000001")

VarOf(t, m, mm) == LET n == W(t) IN IF RLeq(n, 1) THEN Undef      \* sample variance from mean and mean square
                   ELSE RDiv(RMul(n, RSub(M(t, mm), RSq(M(t, m)))), RSub(n, 1))
Fuzz == "1e-11"

(* correlation from means: f, o, ff, oo, fo *)
CorrOf(f, o, ff, oo, fo) ==
  LET v == RMul(RSub(ff, RSq(f)), RSub(oo, RSq(o)))
  IN IF RLeq(v, 0) THEN Undef ELSE RDiv(RSub(fo, RMul(f, o)), RSqrt(v))
(* a correlation the sums put above 1 is reported missing; exactly 1 may fall either way in double precision *)
AgreeCorr(o, c) ==
  IF ~RDefined(c) \/ RLt("1.0000000001", c) THEN o \in Missing
  ELSE (RLt("0.9999999999", c) /\ o \in Missing) \/ Agree7(o, c)

---------------------------------------------------------------------------------
(* SL1L2 *)
Me(t) == RSub(M(t, "fbar"), M(t, "obar"))
Mse(t) == RSub(RAdd(M(t, "ffbar"), M(t, "oobar")), RMul(2, M(t, "fobar")))
Bcmse(t) == RSub(Mse(t), RSq(Me(t)))
PrCorr(t) == CorrOf(M(t, "fbar"), M(t, "obar"), M(t, "ffbar"), M(t, "oobar"), M(t, "fobar"))
E7 == "0.00000006"
SqE(x) == RAdd(E7, RMul(RMul(2, E7), RAbs(x)))                   \* error of a square of a rounded number

AgreeMsess(o, t) ==
  LET v == VarOf(t, "obar", "oobar")  m == Mse(t)
  IN IF ~RDefined(v) \/ RLt(v, RNeg(Fuzz)) THEN o \in Missing
     ELSE IF RLeq(v, Fuzz) THEN TRUE
     ELSE LET x == RSub(1, RDiv(m, v))
              tol == RAdd("0.0000001", RDiv(RAdd(E7, RMul(RMul("0.00000013", RAbs(m)), RDiv(1, RSqrt(v)))), v))
          IN NearWithin(o, x, tol)
AgreeSi(o, t) ==
  LET m == Mse(t)  b == M(t, "obar")
  IN IF RLt(m, RNeg(E7)) THEN o \in Missing
     ELSE IF RLt(RAbs(b), "0.00000005") THEN o \in Missing
     ELSE IF RLeq(m, "0.000001") THEN o \in Missing \/ RLeq(RAbs(RMul(o, b)), "0.0011")
     ELSE LET x == RDiv(RSqrt(m), b)
              tol == RAdd("0.0000001", RDiv(RAdd(RAdd(E7, RDiv(E7, RSqrt(m))), RMul(E7, RAbs(x))), RAbs(b)))
          IN NearWithin(o, x, tol)

AgreeSl(s, o, t) ==
  CASE s \in {"fbar", "obar", "fobar", "ffbar", "oobar", "mae"} -> Agree7(o, M(t, s))
    [] s = "mbias" -> Agree7(o, RDiv(M(t, "fbar"), M(t, "obar")))
    [] s = "fe" -> Agree7(o, RDiv(RSub(M(t, "fbar"), M(t, "obar")), M(t, "fbar")))
    [] s = "me" -> Agree7(o, Me(t))
    [] s = "me2" -> NearWithin(o, RSq(Me(t)), SqE(Me(t)))
    [] s = "mse" -> Agree7(o, Mse(t))
    [] s = "fstdev" -> AgreeSqrt(o, VarOf(t, "fbar", "ffbar"), Fuzz)
    [] s = "ostdev" -> AgreeSqrt(o, VarOf(t, "obar", "oobar"), Fuzz)
    [] s = "pr_corr" -> AgreeCorr(o, PrCorr(t))
    [] s = "msess" -> AgreeMsess(o, t)
    [] s = "rmse" -> AgreeSqrt(o, Mse(t), E7)
    [] s = "si" -> AgreeSi(o, t)
    [] s = "estdev" -> LET n == W(t) IN
         IF RLeq(n, 1) THEN o \in Missing
         ELSE LET r == RDiv(n, RSub(n, 1)) IN AgreeSqrt(o, RMul(r, Bcmse(t)), RMul(r, SqE(Me(t))))
    [] s = "bcmse" -> NearWithin(o, Bcmse(t), RAdd(E7, SqE(Me(t))))
    [] s = "bcrmse" -> AgreeSqrt(o, Bcmse(t), RAdd(E7, SqE(Me(t))))
    [] s \in {"sl1l2_total", "sal1l2_total", "grad_total", "total"} -> Agree7(o, W(t))

ExpSl(s, t) ==
  CASE s \in {"fbar", "obar", "fobar", "ffbar", "oobar", "mae"} -> M(t, s)
    [] s = "mbias" -> RDiv(M(t, "fbar"), M(t, "obar"))
    [] s = "fe" -> RDiv(RSub(M(t, "fbar"), M(t, "obar")), M(t, "fbar"))
    [] s = "me" -> Me(t)  [] s = "me2" -> RSq(Me(t))  [] s = "mse" -> Mse(t)
    [] s = "fstdev" -> RSqrt(VarOf(t, "fbar", "ffbar"))
    [] s = "ostdev" -> RSqrt(VarOf(t, "obar", "oobar"))
    [] s = "pr_corr" -> PrCorr(t)
    [] s = "msess" -> RSub(1, RDiv(Mse(t), VarOf(t, "obar", "oobar")))
    [] s = "rmse" -> RSqrt(Mse(t))
    [] s = "si" -> RDiv(RSqrt(Mse(t)), M(t, "obar"))
    [] s = "estdev" -> LET n == W(t) IN RSqrt(RDiv(RMul(n, Bcmse(t)), RSub(n, 1)))
    [] s = "bcmse" -> Bcmse(t)  [] s = "bcrmse" -> RSqrt(Bcmse(t))
    [] OTHER -> W(t)

(* SAL1L2: the same on anomalies *)
AnomCorr(t) == CorrOf(M(t, "fabar"), M(t, "oabar"), M(t, "ffabar"), M(t, "ooabar"), M(t, "foabar"))
AnomRaw(t) == LET v == RMul(M(t, "ffabar"), M(t, "ooabar"))
                  c == RDiv(M(t, "foabar"), RSqrt(v))
              IN RMin(1, RMax(-1, c))
ExpSal(s, t) ==
  CASE s = "anom_corr" -> AnomCorr(t) [] s = "anom_corr_raw" -> AnomRaw(t)
    [] s = "rmsfa" -> RSqrt(M(t, "ffabar")) [] s = "rmsoa" -> RSqrt(M(t, "ooabar"))
    [] OTHER -> W(t)
AgreeSal(s, o, t) == IF s = "anom_corr" THEN AgreeCorr(o, AnomCorr(t)) ELSE Agree7(o, ExpSal(s, t))

(* GRAD *)
ExpGrad(s, t) ==
  CASE s \in {"fgbar", "ogbar", "mgbar", "egbar"} -> M(t, s)
    [] s = "s1" -> RMul(100, RDiv(M(t, "egbar"), M(t, "mgbar")))
    [] s = "s1_og" -> RMul(100, RDiv(M(t, "egbar"), M(t, "ogbar")))
    [] s = "fgog_ratio" -> RMul(100, RDiv(M(t, "fgbar"), M(t, "ogbar")))
    [] OTHER -> W(t)

(* SSVAR: spread/skill bins; the weights are the bin counts (here t.total), spread is the root mean variance *)
SsSl == {"fbar", "fstdev", "obar", "ostdev", "pr_corr", "me", "estdev", "mse", "bcmse", "bcrmse", "rmse", "me2", "msess"}
ExpSs(s, t) == IF s \in SsSl THEN ExpSl(s, t) ELSE IF s = "anom_corr" THEN PrCorr(t)
               ELSE IF s = "total" THEN RSum(t.total_orig) ELSE RSqrt(M(t, "var_mean"))
AgreeSs(s, o, t) == IF s \in SsSl THEN AgreeSl(s, o, t)
                    ELSE IF s = "anom_corr" THEN AgreeCorr(o, PrCorr(t)) ELSE Agree7(o, ExpSs(s, t))

---------------------------------------------------------------------------------
(* e.fam: line type, e.tab: table, e.out: observed *)
Ok(e, s) == CASE e.fam = "sl1l2" -> AgreeSl(s, e.out[s], e.tab)
              [] e.fam = "sal1l2" -> AgreeSal(s, e.out[s], e.tab)
              [] e.fam = "grad" -> Agree7(e.out[s], ExpGrad(s, e.tab))
              [] e.fam = "ssvar" -> AgreeSs(s, e.out[s], e.tab)
Exp(e, s) == CASE e.fam = "sl1l2" -> ExpSl(s, e.tab)
              [] e.fam = "sal1l2" -> ExpSal(s, e.tab)
              [] e.fam = "grad" -> ExpGrad(s, e.tab)
              [] e.fam = "ssvar" -> ExpSs(s, e.tab)
Verdict(e) == {Say(s, e.out[s], Exp(e, s)) : s \in {x \in DOMAIN e.out : ~Ok(e, x)}}
================================================================================
