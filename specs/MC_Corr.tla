-------------------------------- MODULE MC_Corr ----------------------------------
(* All pairs of short series over few values, up to exchanging pairs; power and evidence on a grid of coefficients.  *)
EXTENDS Corr, Json
CONSTANT L
VARIABLE v
Vals == {"0", "1", "7", "nan"}
PairsInit == \E x \in [1..L -> Vals \ {"nan"}], y \in [1..L -> Vals] :
               /\ \A k \in 1..(L - 1) : RLeq(x[k], x[k + 1])
               /\ \A k \in 1..(L - 1) : (x[k] = x[k + 1] /\ y[k] # "nan" /\ y[k + 1] # "nan") => RLeq(y[k], y[k + 1])
               /\ Cardinality(Known(y)) >= 4 /\ v = [op |-> "corr", x |-> x, y |-> y]
GridInit == \E r \in {"0", "0.1", "-0.4", "0.7", "0.9"}, n \in {5, 6, 9, 20}, two \in BOOLEAN : v = [op |-> "grid", r |-> r, n |-> n, two |-> two]
Init == PairsInit \/ GridInit
Next == FALSE /\ UNCHANGED v
X == Pick(v.x, Known(v.y))
Y == Pick(v.y, Known(v.y))
N9(a, b) == (~RDefined(a) /\ ~RDefined(b)) \/ RNear(a, b, "0.000000000001", "0")
Methods == {"pearson", "spearman", "kendall", "bicor", "percbend"}
Ok(m) == m # "percbend" \/ (BendDefined(X, "1/5") /\ BendDefined(Y, "1/5"))
Scaled(s) == [k \in DOMAIN s |-> RAdd(RMul("3", s[k]), "5")]
Flipped(s) == [k \in DOMAIN s |-> RNeg(s[k])]
(* bounded, symmetric, unchanged by scaling and shifting a side, reversed by mirroring one; ranks ignore any increasing map *)
CoefLaws == v.op = "corr" => \A m \in Methods : Ok(m) =>
   LET r == Coef(X, Y, m) IN
     /\ (RDefined(r) => RLeq(RAbs(r), "1.000000000001"))
     /\ N9(r, Coef(Y, X, m)) /\ N9(r, Coef(Scaled(X), Y, m)) /\ N9(RNeg(r), Coef(X, Flipped(Y), m))
RankLaws == v.op = "corr" => /\ RSum(Rank(X)) = RDiv(Len(X) * (Len(X) + 1), 2)
                            /\ \A m \in {"spearman", "kendall"} : N9(Coef(X, Y, m), Coef([k \in DOMAIN X |-> RPow(X[k], 3)], Y, m))
SelfLaw == v.op = "corr" => \A m \in Methods : Ok(m) => LET r == Coef(X, X, m) IN RDefined(r) => N9(r, "1")
(* under no association the power is the level; it grows with the strength and the number of pairs; one-sided is at least two-sided *)
PowerLaws == v.op = "grid" =>
   LET p == Power(v.r, RNorm(v.n), "0.05", v.two) IN
     /\ (v.r = "0" => RNear(p, "0.05", "0.03", "0")) /\ RLeq(RSub(p, "0.000000001"), Power(RAdd(RAbs(v.r), "0.05"), RNorm(v.n), "0.05", v.two))
     /\ (v.n >= 9 /\ RLeq("0.4", RAbs(v.r)) => RLeq(p, Power(v.r, RNorm(v.n + 1), "0.05", v.two))) /\ p = Power(RNeg(v.r), RNorm(v.n), "0.05", v.two)
(* the interval contains the coefficient and shrinks; the evidence grows with the strength *)
SpreadLaws == v.op = "grid" => LET a == Interval(v.r, v.n, "0.95")  b == Interval(v.r, v.n + 1, "0.95")  c == Interval(v.r, v.n, "0.9")
                               IN RLt(a[1], v.r) /\ RLt(v.r, a[2]) /\ RLt(RSub(b[2], b[1]), RSub(a[2], a[1])) /\ RLt(a[1], c[1]) /\ RLt(c[2], a[2])
EvidenceLaws == v.op = "grid" => RLt(Bayes(v.r, v.n), Bayes(RAdd(RAbs(v.r), "0.04"), v.n))
Emit == v.op # "corr" \/ PrintT("CASE" \o ToJson(v))
================================================================================
