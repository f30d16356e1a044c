--------------------------------- MODULE MC_Vec ---------------------------------
(* Vector samples of (forecast wind, observed wind) pairs, split over lines: pooled scores are the scores of    *)
(* the whole sample; turning every wind by a right angle turns the directions and changes nothing else.         *)
EXTENDS Vec, Integers, Json
CONSTANT Winds
VARIABLE lines
WindSet == CASE Winds = 4 -> {<<0, 0>>, <<3, 4>>, <<-4, 3>>, <<0, -5>>}
             [] Winds = 5 -> {<<0, 0>>, <<3, 4>>, <<-4, 3>>, <<0, -5>>, <<-8, -6>>}
Pair == WindSet \X WindSet
Init == lines \in {<< <<a>> >> : a \in Pair} \cup {<< <<a, b>> >> : a \in Pair, b \in Pair}
              \cup {<< <<a>>, <<b>> >> : a \in Pair, b \in Pair}
Next == FALSE /\ UNCHANGED lines

Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Len2(a) == RSqrt(Dot(a, a))
MeanOf(l, op(_)) == RMean([k \in DOMAIN l |-> RNorm(op(l[k]))])
Tab(ls) ==
  LET C(op(_)) == [n \in DOMAIN ls |-> MeanOf(ls[n], op)]
      UF(p) == p[1][1]  VF(p) == p[1][2]  UO(p) == p[2][1]  VO(p) == p[2][2]
      FO(p) == Dot(p[1], p[2])  FF(p) == Dot(p[1], p[1])  OO(p) == Dot(p[2], p[2])
      FS(p) == Len2(p[1])  OS(p) == Len2(p[2])
  IN [total |-> [n \in DOMAIN ls |-> Len(ls[n])],
      ufbar |-> C(UF), vfbar |-> C(VF), uobar |-> C(UO), vobar |-> C(VO), uvfobar |-> C(FO), uvffbar |-> C(FF), uvoobar |-> C(OO),
      f_speed_bar |-> C(FS), o_speed_bar |-> C(OS),
      ufabar |-> C(UF), vfabar |-> C(VF), uoabar |-> C(UO), voabar |-> C(VO), uvfoabar |-> C(FO), uvffabar |-> C(FF), uvooabar |-> C(OO),
      fa_speed_bar |-> C(FS), oa_speed_bar |-> C(OS)]
T == Tab(lines)
All == IF Len(lines) = 1 THEN lines[1] ELSE lines[1] \o lines[2]
Turn(p) == << <<-p[1][2], p[1][1]>>, <<-p[2][2], p[2][1]>> >>      \* counter-clockwise by 90 degrees
TT == Tab([n \in DOMAIN lines |-> [k \in DOMAIN lines[n] |-> Turn(lines[n][k])]])

SqDiff(p) == LET d == <<p[1][1] - p[2][1], p[1][2] - p[2][2]>> IN Dot(d, d)
Whole ==
  /\ REq(ExpVec("vcnt_msve", T), MeanOf(All, SqDiff))
  /\ REq(ExpVec("vl1l2_fvar", T), RVarP([k \in DOMAIN All |-> Len2(All[k][1])]))
  /\ RLeq(ExpVec("vcnt_fbar_speed", T), ExpVec("vcnt_fbar", T))
  /\ RNear(RSq(ExpVec("vcnt_fs_rms", T)), M(T, "uvffbar"), "1e-40", "0")
  /\ LET c == ExpVec("val1l2_anom_corr", T) IN RDefined(c) => RLeq(RAbs(c), "1.000000000000001")
Rotation ==
  /\ \A s \in {"vcnt_fdir", "vcnt_odir", "vcnt_vdiff_dir"} :
       IF RDefined(ExpVec(s, T)) THEN AgreeAngle(ExpVec(s, TT), RSub(ExpVec(s, T), 90), 0, 360) ELSE ~RDefined(ExpVec(s, TT))
  /\ \A s \in {"vcnt_dir_err", "vcnt_vdiff_speed", "vcnt_msve", "vcnt_speed_err", "val1l2_anom_corr"} :
       IF RDefined(ExpVec(s, T)) THEN RNear(ExpVec(s, TT), ExpVec(s, T), "1e-30", "0") ELSE ~RDefined(ExpVec(s, TT))
  /\ LET e == ExpVec("vcnt_dir_err", T) f == ExpVec("vcnt_fdir", T) o == ExpVec("vcnt_odir", T)
     IN RDefined(e) => AgreeAngle(RMod(e, 360), RSub(o, f), 0, 360)
Emit == PrintT("CASE" \o ToJson(T))
================================================================================
