--------------------------------- MODULE MC_Ens ---------------------------------
(* Two lines with small values: a line of total n counts as n equal lines of total 1; one line reproduces its   *)
(* own values; pooled means lie between the line values.                                                        *)
EXTENDS Ens, Json
CONSTANTS Tot, Val, Skill
VARIABLE s
Init == s \in [n1 : Tot, n2 : Tot, x1 : Val, x2 : Val, k1 : Skill, k2 : Skill, y1 : Val, y2 : Val]
Next == FALSE /\ UNCHANGED s

(* columns of a line of total n with values x, y and skill k *)
Cols == {"crps", "crpscl", "crps_emp", "crps_emp_fair", "spread_md", "crpscl_emp", "ign", "me", "mae", "mae_oerr", "me_oerr",
         "rmse", "spread", "rmse_oerr", "spread_oerr", "spread_plus_oerr", "n_ge_obs", "n_lt_obs", "me_ge_obs", "me_lt_obs",
         "rps", "rps_comp", "rpss", "fbs", "fss", "f_rate", "o_rate"}
V(c, n, x, y, k) == CASE c \in {"rpss", "fss"} -> k
                      [] c \in {"crpscl", "o_rate", "me_lt_obs", "spread", "crps_emp_fair", "rps_comp", "spread_plus_oerr", "mae"} -> y
                      [] c = "n_ge_obs" -> n
                      [] c = "n_lt_obs" -> 1
                      [] c \in {"crpscl_emp", "rmse", "ign", "spread_oerr"} -> RAdd(x, y)
                      [] OTHER -> x
Tab(ls) == [c \in Cols \cup {"total"} |-> [m \in DOMAIN ls |-> IF c = "total" THEN ls[m][1] ELSE V(c, ls[m][1], ls[m][2], ls[m][3], ls[m][4])]]
L1 == <<s.n1, s.x1, s.y1, s.k1>>
L2 == <<s.n2, s.x2, s.y2, s.k2>>
T == Tab(<<L1, L2>>)
(* the same with every line split into lines of total 1 (counts of members split too) *)
One(l) == [j \in 1..l[1] |-> <<1, l[2], l[3], l[4]>>]
Split == Tab(One(L1) \o One(L2))
Same(a, b) == IF RDefined(a) THEN RDefined(b) /\ RNear(a, b, "1e-40", "0") ELSE ~RDefined(b)
SplitInvariant == \A x \in (DOMAIN Means) \cup (DOMAIN Roots) \cup {"ecnt_crpss", "ecnt_crpss_emp", "rpss", "nbr_fss", "nbr_afss", "nbr_ufss", "ecnt_total"} :
                    Same(ExpEns(x, T), ExpEns(x, Split))
OneLine == LET O == Tab(<<L1>>) IN
  /\ \A x \in DOMAIN Means : Same(ExpEns(x, O), O[Means[x]][1])
  /\ \A x \in DOMAIN Roots : Same(ExpEns(x, O), RAbs(O[Roots[x]][1]))
  /\ (RNonZero(s.x1)) => Same(ExpEns("rpss", O), s.k1) /\ Same(ExpEns("nbr_fss", O), s.k1)
Between == \A x \in DOMAIN Means : LET a == T[Means[x]][1] b == T[Means[x]][2]
             IN RLeq(RMin(a, b), ExpEns(x, T)) /\ RLeq(ExpEns(x, T), RMax(a, b))
Emit == PrintT("CASE" \o ToJson(T))
================================================================================
