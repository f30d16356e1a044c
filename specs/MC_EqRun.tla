------------------------------- MODULE MC_EqRun ---------------------------------
(* Runs on small tables: every subset of (model, variable, case) cells, one and two axes with equal, overlapping and different    *)
(* series.  Laws: every combination of the last equalization holds the same cases; rows come from the axes; a second axis with    *)
(* the series and variable of the first repeats its rows.                                                                           *)
EXTENDS Equalize, Json
VARIABLE v
Cells == {"A", "B"} \X {"T", "U"} \X {"1", "2"}
Sq(s) == SetToSeq(s)
Mk(c, k) == [id |-> c[1] \o c[2] \o c[3], model |-> c[1], fcst_var |-> c[2], stat_name |-> "ME", fcst_valid_beg |-> "t" \o c[3], fcst_lead |-> "0", lev |-> IF c[3] = "1" THEN "P" ELSE "Q", x |-> "5"]
D(f, ms) == [field |-> f, members |-> ms]
V(n) == [var |-> n, stats |-> <<"ME">>]
Axis(s, vs) == [series |-> s, vars |-> vs]
AB == <<D("model", <<"A", "B">>)>>
Shapes == { <<Axis(AB, <<V("T")>>)>>, <<Axis(AB, <<V("T"), V("U")>>)>>, <<Axis(<<D("model", <<"B">>)>>, <<V("U")>>)>>,
            <<Axis(AB, <<V("T")>>), Axis(AB, <<V("U")>>)>>, <<Axis(<<D("model", <<"A">>)>>, <<V("T")>>), Axis(<<D("model", <<"B">>)>>, <<V("U")>>)>>,
            <<Axis(AB, <<V("T")>>), Axis(<<D("model", <<"A">>)>>, <<V("T"), V("U")>>)>>, <<Axis(AB, <<V("T")>>), Axis(AB, <<V("T")>>)>> }
Init == \E cs \in SUBSET Cells, s \in Shapes, fx \in {<<>>, <<D("lev", <<"P">>)>>} :
          v = [rows |-> [k \in DOMAIN Sq(cs) |-> Mk(Sq(cs)[k], k)], axes |-> s, fixed |-> fx, indy |-> "x"]
Next == FALSE /\ UNCHANGED v
R == RunRows(v)
Two == Len(v.axes) = 2
AllDims == Splitting(IF Two THEN Merge(v.axes[1].series, v.axes[2].series) \o v.fixed ELSE v.axes[1].series \o v.fixed)
SameCases == (Two \/ Len(v.axes[1].vars) = 1) =>
  \A f \in Combos(AllDims) : CasesOf(R, AllDims, f, "x", TRUE) = {Case(R[j], "x", TRUE) : j \in DOMAIN R}
FromAxes == \A j \in DOMAIN R : \E k \in DOMAIN v.axes : \E i \in DOMAIN AxisRows(v.rows, v.axes[k], v.fixed, "x") : AxisRows(v.rows, v.axes[k], v.fixed, "x")[i] = R[j]
Twice == (Two /\ v.axes[1] = v.axes[2]) => LET a == AxisRows(v.rows, v.axes[1], v.fixed, "x") IN R = a \o a
Emit == PrintT("CASE" \o ToJson(v))
================================================================================
