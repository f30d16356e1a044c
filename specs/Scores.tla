---------------------------------- MODULE Scores --------------------------------
(* The statistic of a set of lines, for every line type: one name for the definitions of the score modules.     *)
EXTENDS Conf, Sequences, SequencesExt
SC == INSTANCE Ctc
SP == INSTANCE PSums
SV == INSTANCE Vec
SE == INSTANCE Ens

CtcStat == [nbr_acc |-> "acc", nbr_baser |-> "baser", nbr_csi |-> "csi", nbr_far |-> "far", nbr_fbias |-> "fbias", nbr_fmean |-> "fmean",
            nbr_gss |-> "gss", nbr_hk |-> "hk", nbr_hss |-> "hss", nbr_odds |-> "odds", nbr_podn |-> "podn", nbr_pody |-> "pody",
            nbr_pofd |-> "pofd", nbr_ctc_total |-> "ctc_total"]
CtcName(s) == IF s \in DOMAIN CtcStat THEN CtcStat[s] ELSE s
Agrees(fam, s, o, t) ==
  CASE fam \in {"ctc", "nbrctc", "nbr_ctc"} -> LET p == SC!Pool(t) v == SC!Score(CtcName(s), p) IN AgreeTol(o, v, IF RDefined(v) THEN SC!Tol(CtcName(s), p) ELSE "0", "0.000000001")
    [] fam = "sl1l2" -> SP!AgreeSl(s, o, t)
    [] fam = "sal1l2" -> IF s = "sal1l2_total" THEN Agree7(o, SP!W(t)) ELSE SP!AgreeSal(s, o, t)
    [] fam = "grad" -> Agree7(o, SP!ExpGrad(s, t))
    [] fam \in {"vl1l2", "val1l2", "vcnt"} -> SV!AgreeVec(s, o, t)
    [] fam \in {"ecnt", "rps", "nbrcnt", "nbr_cnt"} -> SE!AgreeEns(s, o, t)
Value(fam, s, t) ==
  CASE fam \in {"ctc", "nbrctc", "nbr_ctc"} -> SC!Score(CtcName(s), SC!Pool(t))
    [] fam = "sl1l2" -> SP!ExpSl(s, t)
    [] fam = "sal1l2" -> IF s = "sal1l2_total" THEN SP!W(t) ELSE SP!ExpSal(s, t)
    [] fam = "grad" -> SP!ExpGrad(s, t)
    [] fam \in {"vl1l2", "val1l2", "vcnt"} -> SV!ExpVec(s, t)
    [] fam \in {"ecnt", "rps", "nbrcnt", "nbr_cnt"} -> SE!ExpEns(s, t)

TableOf(rs) == [c \in DOMAIN rs[1].num |-> [k \in DOMAIN rs |-> rs[k].num[c]]]

---------------------------------------------------------------------------------
(* Merging lines into one that stands for all of them *)
Counts == {"total", "fy_oy", "fy_on", "fn_oy", "fn_on", "n_ge_obs", "n_lt_obs"}
Squares == {"rmse", "rmse_oerr", "spread", "spread_oerr", "spread_plus_oerr"}
Merged(c, t) ==
  CASE c \in Counts -> RSum(t[c])
    [] c \in Squares -> RSqrt(SE!MeanSq(t, c))
    [] c = "me_ge_obs" -> SE!MeanBy(t, "me_ge_obs", "n_ge_obs")
    [] c = "me_lt_obs" -> SE!MeanBy(t, "me_lt_obs", "n_lt_obs")
    [] c = "rpss" -> RSub(1, RDiv(SP!M(t, "rps"), SE!RefMean(t, "rps", "rpss")))
    [] c = "fss" -> RSub(1, RDiv(SP!M(t, "fbs"), SE!RefMean(t, "fbs", "fss")))
    [] c = "crpss" -> RSub(1, RDiv(SP!M(t, "crps"), SE!RefMean(t, "crps", "crpss")))
    [] OTHER -> SP!M(t, c)
(* one line [num] for the lines rs *)
MergeLines(rs) == LET t == TableOf(rs) IN [c \in DOMAIN t |-> Merged(c, t)]
================================================================================
