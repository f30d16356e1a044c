-------------------------------- MODULE MC_PSums --------------------------------
(* Partial sums of small samples of (forecast, observation) pairs split over one or two lines.  The scores of   *)
(* the pooled lines are the scores of the whole sample, computed here directly from the pairs, however the      *)
(* sample was split.                                                                                            *)
EXTENDS PSums, Integers, Json
CONSTANTS Vals, MaxPairs
VARIABLE lines                          \* sequence of lines, each a non-empty sequence of pairs

Pair == Vals \X Vals
Line == UNION {[1..n -> Pair] : n \in 1..MaxPairs}
Init == lines \in {<<l>> : l \in Line} \cup {<<k, l>> : k \in Line, l \in Line}
Next == FALSE /\ UNCHANGED lines

F(l) == [k \in DOMAIN l |-> RNorm(l[k][1])]
O(l) == [k \in DOMAIN l |-> RNorm(l[k][2])]
Prod(x, y) == [k \in DOMAIN x |-> RMul(x[k], y[k])]
Col(op(_)) == [n \in DOMAIN lines |-> op(lines[n])]
FBar(l) == RMean(F(l))
OBar(l) == RMean(O(l))
FFBar(l) == RMean(Prod(F(l), F(l)))
OOBar(l) == RMean(Prod(O(l), O(l)))
FOBar(l) == RMean(Prod(F(l), O(l)))
AbsE(l) == RMean([k \in DOMAIN l |-> RAbs(RSub(l[k][1], l[k][2]))])
Tot(l) == Len(l)
T == [total |-> Col(Tot), fbar |-> Col(FBar), obar |-> Col(OBar), ffbar |-> Col(FFBar), oobar |-> Col(OOBar),
      fobar |-> Col(FOBar), mae |-> Col(AbsE)]

All == IF Len(lines) = 1 THEN lines[1] ELSE lines[1] \o lines[2]
n == Len(All)
D == [k \in 1..n |-> RSub(All[k][1], All[k][2])]
Cov(x, y) == LET mx == RMean(x) my == RMean(y) IN RSum([k \in DOMAIN x |-> RMul(RSub(x[k], mx), RSub(y[k], my))])

PoolingIsWholeSample ==
  /\ REq(ExpSl("fbar", T), RMean(F(All))) /\ REq(ExpSl("obar", T), RMean(O(All)))
  /\ REq(ExpSl("me", T), RMean(D)) /\ REq(ExpSl("mse", T), RMean(Prod(D, D)))
  /\ REq(ExpSl("mae", T), RMean([k \in 1..n |-> RAbs(D[k])]))
  /\ REq(ExpSl("bcmse", T), RVarP(D))
  /\ n > 1 => /\ REq(VarOf(T, "fbar", "ffbar"), RVarS(F(All)))
              /\ REq(VarOf(T, "obar", "oobar"), RVarS(O(All)))
              /\ RNear(ExpSl("estdev", T), RSqrt(RVarS(D)), "1e-40", "0")
  /\ LET v == RMul(RSS(F(All)), RSS(O(All)))
         c == IF REq(v, 0) THEN Undef ELSE RDiv(Cov(F(All), O(All)), RSqrt(v))
     IN IF RDefined(c) THEN RNear(ExpSl("pr_corr", T), c, "1e-40", "0") /\ RLeq(RAbs(c), "1.0000000000000001")
        ELSE ~RDefined(ExpSl("pr_corr", T))
  /\ REq(ExpSl("total", T), n)
Relations ==
  /\ RNear(RSq(ExpSl("rmse", T)), ExpSl("mse", T), "1e-40", "0")
  /\ REq(RAdd(ExpSl("bcmse", T), ExpSl("me2", T)), ExpSl("mse", T))
Emit == PrintT("CASE" \o ToJson(T))
================================================================================
