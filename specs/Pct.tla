----------------------------------- MODULE Pct ----------------------------------
(* Scores of probabilistic contingency tables.  A table has bins 1..B with probability t.thr[b] and, per line,  *)
(* counts t.oy[l][b] (event observed) and t.on[l][b] (not observed).  Lines are pooled by adding counts.        *)
EXTENDS Conf

Bins(t) == DOMAIN t.thr
Oy(t, b) == RSum([l \in DOMAIN t.oy |-> t.oy[l][b]])
On(t, b) == RSum([l \in DOMAIN t.on |-> t.on[l][b]])
Nb(t, b) == RAdd(Oy(t, b), On(t, b))
SumB(t, f(_)) == RSum([b \in Bins(t) |-> IF RNonZero(Nb(t, b)) THEN f(b) ELSE "0"])
N(t) == SumB(t, LAMBDA b : Nb(t, b))
Yes(t) == SumB(t, LAMBDA b : Oy(t, b))
No(t) == SumB(t, LAMBDA b : On(t, b))
Base(t) == RDiv(Yes(t), N(t))
Rate(t, b) == RDiv(Oy(t, b), Nb(t, b))
Reliability(t) == RDiv(SumB(t, LAMBDA b : RMul(Nb(t, b), RSq(RSub(t.thr[b], Rate(t, b))))), N(t))
Resolution(t) == RDiv(SumB(t, LAMBDA b : RMul(Nb(t, b), RSq(RSub(Rate(t, b), Base(t))))), N(t))
Uncertainty(t) == RMul(Base(t), RSub(1, Base(t)))
Brier(t) == RAdd(RSub(Reliability(t), Resolution(t)), Uncertainty(t))
BrierDirect(t) == RDiv(SumB(t, LAMBDA b : RAdd(RMul(Oy(t, b), RSq(RSub(1, t.thr[b]))), RMul(On(t, b), RSq(t.thr[b])))), N(t))

(* ROC: warn when the bin's probability exceeds the threshold *)
Pody(t, x) == RDiv(SumB(t, LAMBDA b : IF RGt(t.thr[b], x) THEN Oy(t, b) ELSE "0"), Yes(t))
Pofd(t, x) == RDiv(SumB(t, LAMBDA b : IF RGt(t.thr[b], x) THEN On(t, b) ELSE "0"), No(t))
RocPoints(t) == LET xs == RSort(t.thr)
                IN << <<"1", "1">> >> \o [k \in DOMAIN xs |-> <<Pody(t, xs[k]), Pofd(t, xs[k])>>] \o << <<"0", "0">> >>
RocArea(t) == LET p == RocPoints(t)
              IN IF RNonZero(Yes(t)) /\ RNonZero(No(t))
                 THEN RSum([k \in 1..(Len(p) - 1) |-> RDiv(RMul(RAdd(p[k][1], p[k + 1][1]), RSub(p[k][2], p[k + 1][2])), 2)])
                 ELSE Undef
(* the same as the chance that an event got a higher probability than a non-event, ties counting half *)
RocAreaPairs(t) ==
  RDiv(RSum([q \in 1..(Len(t.thr) * Len(t.thr)) |->
               LET a == ((q - 1) \div Len(t.thr)) + 1  b == ((q - 1) % Len(t.thr)) + 1
               IN RProd3(Oy(t, a), On(t, b), IF RGt(t.thr[a], t.thr[b]) THEN "1" ELSE IF REq(t.thr[a], t.thr[b]) THEN "1/2" ELSE "0")]),
       RMul(Yes(t), No(t)))

ExpPct(s, t) ==
  CASE s = "pstd_brier" -> Brier(t)
    [] s = "pstd_bss_smpl" -> RDiv(RSub(Resolution(t), Reliability(t)), Uncertainty(t))
    [] s = "pstd_baser" -> Base(t)
    [] s = "pstd_reliability" -> Reliability(t)
    [] s = "pstd_resolution" -> Resolution(t)
    [] s = "pstd_uncertainty" -> Uncertainty(t)
    [] s = "pstd_roc_auc" -> RocArea(t)
    [] s = "pstd_calibration" -> RDiv(Oy(t, 1), Nb(t, 1))
    [] s = "pstd_ni" -> Nb(t, 1)
    [] s = "pct_total" -> RSum(t.total)

PctVerdict(e) == {Say(s, e.out[s], ExpPct(s, e.tab)) : s \in {x \in DOMAIN e.out : ~Agree7(e.out[x], ExpPct(x, e.tab))}}
================================================================================
