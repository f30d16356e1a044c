--------------------------------- MODULE MC_Pct ---------------------------------
(* All small probability tables: three bins over two lines. *)
EXTENDS Pct, Json
CONSTANTS Cnt, Thr
VARIABLE s
Init == s \in [thr : {<<"0.1", "0.5", "0.9">>, <<"0.9", "0.1", "0.5">>} \cup {<<x, "0.5", y>> : x \in Thr, y \in Thr}, y : [1..3 -> Cnt], n : [1..3 -> Cnt], z : Cnt]
Next == FALSE /\ UNCHANGED s
T == [thr |-> s.thr, oy |-> <<s.y, <<s.z, 0, 0>> >>, on |-> <<s.n, <<0, 0, 0>> >>, total |-> <<1, 1>>]
(* the two lines added by hand *)
P == [thr |-> s.thr, oy |-> << <<s.y[1] + s.z, s.y[2], s.y[3]>> >>, on |-> <<s.n>>, total |-> <<2>>]
(* bins in reverse order *)
R == [thr |-> <<s.thr[3], s.thr[2], s.thr[1]>>, oy |-> << <<s.y[3], s.y[2], s.y[1] + s.z>> >>, on |-> << <<s.n[3], s.n[2], s.n[1]>> >>, total |-> <<2>>]
Scores == {"pstd_brier", "pstd_bss_smpl", "pstd_baser", "pstd_reliability", "pstd_resolution", "pstd_uncertainty", "pstd_roc_auc"}
Same(a, b) == IF RDefined(a) THEN RDefined(b) /\ REq(a, b) ELSE ~RDefined(b)
Pooling == \A x \in Scores : Same(ExpPct(x, T), ExpPct(x, P)) /\ Same(ExpPct(x, T), ExpPct(x, R))
Decomposition == Same(Brier(T), BrierDirect(T))
AreaIsPairOrder == Same(RocArea(T), RocAreaPairs(T))
Ranges == /\ RDefined(Base(T)) => RGeq(Resolution(T), 0) /\ RLeq(Resolution(T), Uncertainty(T)) /\ RGeq(Reliability(T), 0)
          /\ RDefined(RocArea(T)) => RGeq(RocArea(T), 0) /\ RLeq(RocArea(T), 1)
Emit == PrintT("CASE" \o ToJson(T))
================================================================================
