----------------------------------- MODULE Vec ----------------------------------
(* Scores from vector partial-sum lines (wind).  Tables and pooling as in PSums.                                *)
EXTENDS PSums

Speed(u, v) == RSqrt(RAdd(RSq(u), RSq(v)))
(* meteorological direction: degrees clockwise from north the wind blows *from*, in [0, 360) *)
Dir(u, v) == RMod(RAtan2Deg(RNeg(u), RNeg(v)), 360)
(* angle from the observed to the forecast vector, counter-clockwise, in (-180, 180] *)
Angle(uf, vf, uo, vo) == RAtan2Deg(RSub(RMul(vf, uo), RMul(uf, vo)), RAdd(RMul(uf, uo), RMul(vf, vo)))

(* agreement of angles: congruent modulo a full turn (rounding may carry 359.99999999 to 360) and in range *)
AgreeAngle(o, v, lo, hi) ==
  IF ~RDefined(v) THEN o \in Missing
  ELSE /\ RDefined(o) /\ RLeq(lo, o) /\ RLeq(o, hi)
       /\ LET d == RMod(RSub(o, v), 360) IN RLeq(d, "0.0000002") \/ RLeq("359.9999998", d)

Uf(t) == M(t, "ufbar")  Vf(t) == M(t, "vfbar")  Uo(t) == M(t, "uobar")  Vo(t) == M(t, "vobar")
FSpd(t) == Speed(Uf(t), Vf(t))
OSpd(t) == Speed(Uo(t), Vo(t))
Msve(t) == LET m == RAdd(RSub(M(t, "uvffbar"), RMul(2, M(t, "uvfobar"))), M(t, "uvoobar")) IN IF RLt(m, 0) THEN Undef ELSE m
SpdVar(t, mm, m) == RSub(M(t, mm), RSq(M(t, m)))
Clip(c) == RMin(1, RMax(-1, c))
AnomC(t) == Clip(CorrOf(M(t, "fa_speed_bar"), M(t, "oa_speed_bar"), M(t, "uvffabar"), M(t, "uvooabar"), M(t, "uvfoabar")))
AnomU(t) == LET v == RMul(M(t, "uvffabar"), M(t, "uvooabar")) IN Clip(RDiv(M(t, "uvfoabar"), RSqrt(v)))
WindCorr(t) ==
  LET uf == M(t, "ufabar") vf == M(t, "vfabar") uo == M(t, "uoabar") vo == M(t, "voabar")
  IN RDiv(RSub(RSub(M(t, "uvfoabar"), RMul(uf, uo)), RMul(vf, vo)),
          RMul(RSqrt(RSub(RSub(M(t, "uvffabar"), RSq(uf)), RSq(vf))), RSqrt(RSub(RSub(M(t, "uvooabar"), RSq(uo)), RSq(vo)))))

ExpVec(s, t) ==
  CASE s = "vl1l2_bias" -> RSub(RSqrt(M(t, "uvffbar")), RSqrt(M(t, "uvoobar")))
    [] s = "vl1l2_fvar" -> SpdVar(t, "uvffbar", "f_speed_bar")
    [] s = "vl1l2_ovar" -> SpdVar(t, "uvoobar", "o_speed_bar")
    [] s \in {"vl1l2_fspd", "vcnt_fbar_speed"} -> FSpd(t)
    [] s \in {"vl1l2_ospd", "vcnt_obar_speed"} -> OSpd(t)
    [] s \in {"vl1l2_speed_err", "vcnt_speed_err"} -> RSub(FSpd(t), OSpd(t))
    [] s = "vcnt_speed_abserr" -> RAbs(RSub(FSpd(t), OSpd(t)))
    [] s \in {"vl1l2_msve", "vcnt_msve"} -> Msve(t)
    [] s \in {"vl1l2_rmsve", "vcnt_rmsve"} -> RSqrt(Msve(t))
    [] s = "vcnt_fbar" -> M(t, "f_speed_bar")
    [] s = "vcnt_obar" -> M(t, "o_speed_bar")
    [] s = "vcnt_fs_rms" -> RSqrt(M(t, "uvffbar"))
    [] s = "vcnt_os_rms" -> RSqrt(M(t, "uvoobar"))
    [] s = "vcnt_fstdev" -> RSqrt(SpdVar(t, "uvffbar", "f_speed_bar"))
    [] s = "vcnt_ostdev" -> RSqrt(SpdVar(t, "uvoobar", "o_speed_bar"))
    [] s = "vcnt_fdir" -> Dir(Uf(t), Vf(t))
    [] s = "vcnt_odir" -> Dir(Uo(t), Vo(t))
    [] s = "vcnt_vdiff_speed" -> Speed(RSub(Uf(t), Uo(t)), RSub(Vf(t), Vo(t)))
    [] s = "vcnt_vdiff_dir" -> Dir(RSub(Uf(t), Uo(t)), RSub(Vf(t), Vo(t)))
    [] s = "vcnt_dir_err" -> Angle(Uf(t), Vf(t), Uo(t), Vo(t))
    [] s = "vcnt_dir_abser" -> RAbs(Angle(Uf(t), Vf(t), Uo(t), Vo(t)))
    [] s = "vcnt_anom_corr" -> AnomC(t)
    [] s = "vcnt_anom_corr_uncntr" -> AnomU(t)
    [] s = "val1l2_anom_corr" -> WindCorr(t)
    [] s \in {"vl1l2_total", "val1l2_total"} -> W(t)

(* when a radicand of a correlation is 0 or the correlation hits its limits, double precision may fall either way *)
VecRadicand(s, t) ==
  IF s = "val1l2_anom_corr" THEN
     RMin(RSub(RSub(M(t, "uvffabar"), RSq(M(t, "ufabar"))), RSq(M(t, "vfabar"))),
          RSub(RSub(M(t, "uvooabar"), RSq(M(t, "uoabar"))), RSq(M(t, "voabar"))))
  ELSE RMul(RSub(M(t, "uvffabar"), RSq(M(t, "fa_speed_bar"))), RSub(M(t, "uvooabar"), RSq(M(t, "oa_speed_bar"))))

AgreeVec(s, o, t) ==
  LET v == ExpVec(s, t) IN
  CASE s \in {"vcnt_fdir", "vcnt_odir", "vcnt_vdiff_dir"} -> AgreeAngle(o, v, 0, 360)
    [] s = "vcnt_dir_err" -> AgreeAngle(o, v, -180, 180)
    [] s = "vcnt_dir_abser" -> AgreeAngle(o, v, 0, 180)
    [] s \in {"vcnt_fstdev", "vcnt_ostdev"} ->
         AgreeSqrt(o, IF s = "vcnt_fstdev" THEN SpdVar(t, "uvffbar", "f_speed_bar") ELSE SpdVar(t, "uvoobar", "o_speed_bar"), E7)
    [] s \in {"vl1l2_rmsve", "vcnt_rmsve"} -> AgreeSqrt(o, Msve(t), E7)
    [] s \in {"vl1l2_speed_err", "vcnt_speed_err", "vcnt_speed_abserr"} -> NearWithin(o, v, "0.00000016")
    [] s \in {"vcnt_anom_corr", "val1l2_anom_corr"} ->
         RLeq(RAbs(VecRadicand(s, t)), "1e-9") \/ Agree7(o, v)
    [] OTHER -> Agree7(o, v)

VecVerdict(e) == {Say(s, e.out[s], ExpVec(s, e.tab)) : s \in {x \in DOMAIN e.out : ~AgreeVec(x, e.out[x], e.tab)}}
================================================================================
