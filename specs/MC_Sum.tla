--------------------------------- MODULE MC_Sum ---------------------------------
(* Small tables of every line type.  Laws: a merged line has every score of the lines it stands for, and        *)
(* merging in two steps is merging in one.                                                                      *)
EXTENDS Sum, Json
CONSTANT
  Vals
VARIABLE v
Fam == [ctc |-> <<"fy_oy", "fy_on", "fn_oy", "fn_on">>, sl1l2 |-> <<"fbar", "obar", "ffbar", "mae">>, grad |-> <<"egbar", "mgbar">>,
        rps |-> <<"rps", "rpss">>, nbrcnt |-> <<"fbs", "fss", "o_rate">>, ecnt |-> <<"rmse", "crps", "me_ge_obs">>, vl1l2 |-> <<"ufbar", "vfbar", "uvffbar">>]
Stats == [ctc |-> {"csi", "gss", "fbias"}, sl1l2 |-> {"fbar", "mbias", "mae", "fstdev"}, grad |-> {"s1"}, rps |-> {"rps", "rpss"},
          nbrcnt |-> {"nbr_fbs", "nbr_fss", "nbr_ufss"}, ecnt |-> {"ecnt_rmse", "ecnt_crps", "ecnt_me_ge_obs"}, vl1l2 |-> {"vl1l2_fspd", "vcnt_fs_rms"}]
Val(c, x) == IF c \in {"rpss", "fss"} THEN RDiv(x, 8) ELSE ToString(x)
Line(fam, f, n) == [c \in ToSet(Fam[fam]) \union {"total"} \union (IF fam = "ecnt" THEN {"n_ge_obs"} ELSE {}) |->
                      IF c = "total" THEN ToString(n) ELSE IF c = "n_ge_obs" THEN ToString(n - 1) ELSE Val(c, f[CHOOSE k \in DOMAIN Fam[fam] : Fam[fam][k] = c])]
Lines(fam) == {Line(fam, f, n) : f \in [DOMAIN Fam[fam] -> Vals], n \in {1, 3}}
Init == \E fam \in DOMAIN Fam : \E a, b \in Lines(fam) : v = [fam |-> fam, rows |-> <<[num |-> a], [num |-> b]>>]
Next == FALSE /\ UNCHANGED v
Third == [num |-> Line(v.fam, [k \in DOMAIN Fam[v.fam] |-> k], 2)]
Close(x, y) == (~RDefined(x) /\ ~RDefined(y)) \/ (RDefined(x) /\ RDefined(y) /\ RNear(x, y, "1e-12", "1e-12"))
Faithful == LET m == <<[num |-> MergeLines(v.rows)]>> IN \A s \in Stats[v.fam] :
              RDefined(Value(v.fam, s, TableOf(v.rows))) => Close(Value(v.fam, s, TableOf(m)), Value(v.fam, s, TableOf(v.rows)))
Stepwise == LET m == MergeLines(v.rows) a == MergeLines(<<[num |-> m], Third>>) b == MergeLines(v.rows \o <<Third>>)
            IN (\A c \in DOMAIN m : RDefined(m[c])) => \A c \in DOMAIN a : Close(a[c], b[c])
Emit == PrintT("CASE" \o ToJson(v))
================================================================================
