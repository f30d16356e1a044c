----------------------------------- MODULE Ens ----------------------------------
(* Ensemble continuous (ECNT), ranked probability (RPS) and neighborhood continuous (NBRCNT) scores pooled over *)
(* lines.  Root-mean-square quantities are pooled as squares, skill scores from pooled score and reference.     *)
EXTENDS PSums

MeanSq(t, c) == RDiv(RSum([k \in DOMAIN t.total |-> RMul(t.total[k], RSq(t[c][k]))]), W(t))
MeanBy(t, c, w) == RDiv(RDot(t[c], t[w]), RSum(t[w]))
(* mean reference score, recovered line by line from score and skill: score / (1 - skill) *)
RefMean(t, score, skill) ==
  RDiv(RSum([k \in DOMAIN t.total |-> RMul(t.total[k], RDiv(t[score][k], RSub(1, t[skill][k])))]), W(t))

Means == [ecnt_crps |-> "crps", ecnt_crpscl |-> "crpscl", ecnt_crps_emp |-> "crps_emp", ecnt_crps_emp_fair |-> "crps_emp_fair",
          ecnt_spread_md |-> "spread_md", ecnt_crpscl_emp |-> "crpscl_emp", ecnt_ign |-> "ign", ecnt_me |-> "me", ecnt_mae |-> "mae",
          ecnt_mae_oerr |-> "mae_oerr", ecnt_me_oerr |-> "me_oerr", rps |-> "rps", rps_comp |-> "rps_comp",
          nbr_fbs |-> "fbs", nbr_f_rate |-> "f_rate", nbr_o_rate |-> "o_rate"]
Roots == [ecnt_rmse |-> "rmse", ecnt_spread |-> "spread", ecnt_rmse_oerr |-> "rmse_oerr", ecnt_spread_oerr |-> "spread_oerr",
          ecnt_spread_plus_oerr |-> "spread_plus_oerr"]

ExpEns(s, t) ==
  CASE s \in DOMAIN Means -> M(t, Means[s])
    [] s \in DOMAIN Roots -> RSqrt(MeanSq(t, Roots[s]))
    [] s = "ecnt_crpss" -> RSub(1, RDiv(M(t, "crps"), M(t, "crpscl")))
    [] s = "ecnt_crpss_emp" -> RSub(1, RDiv(M(t, "crps_emp"), M(t, "crpscl_emp")))
    [] s = "ecnt_n_ge_obs" -> RSum(t.n_ge_obs)
    [] s = "ecnt_n_lt_obs" -> RSum(t.n_lt_obs)
    [] s = "ecnt_me_ge_obs" -> MeanBy(t, "me_ge_obs", "n_ge_obs")
    [] s = "ecnt_me_lt_obs" -> MeanBy(t, "me_lt_obs", "n_lt_obs")
    [] s = "ecnt_bias_ratio" -> RDiv(MeanBy(t, "me_ge_obs", "n_ge_obs"), RAbs(MeanBy(t, "me_lt_obs", "n_lt_obs")))
    [] s = "rpss" -> RSub(1, RDiv(M(t, "rps"), RefMean(t, "rps", "rpss")))
    [] s = "nbr_fss" -> RSub(1, RDiv(M(t, "fbs"), RefMean(t, "fbs", "fss")))
    [] s = "nbr_afss" -> LET f == M(t, "f_rate") o == M(t, "o_rate") IN RDiv(RProd3(2, f, o), RAdd(RSq(f), RSq(o)))
    [] s = "nbr_ufss" -> RAdd("1/2", RDiv(M(t, "o_rate"), 2))
    [] s \in {"ecnt_total", "rps_total", "nbr_cnt_total"} -> W(t)

AgreeEns(s, o, t) ==
  CASE s \in DOMAIN Roots -> AgreeSqrt(o, MeanSq(t, Roots[s]), E7)
    [] s = "ecnt_bias_ratio" ->
         LET v == ExpEns(s, t) d == RAbs(MeanBy(t, "me_lt_obs", "n_lt_obs"))
         IN IF RDefined(v) THEN NearWithin(o, v, RAdd("0.0000001", RDiv(RMul(E7, RAdd(1, RAbs(v))), d))) ELSE o \in Missing
    [] OTHER -> Agree7(o, ExpEns(s, t))

EnsVerdict(e) == {Say(s, e.out[s], ExpEns(s, e.tab)) : s \in {x \in DOMAIN e.out : ~AgreeEns(x, e.out[x], e.tab)}}
================================================================================
