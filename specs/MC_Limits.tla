------------------------------- MODULE MC_Limits --------------------------------
EXTENDS Limits, Json
CONSTANTS
 N
VARIABLE v
Vals == {"none", "0", "1", "-5/2"}
Alphas == {"0", "1/20", "1/2", "9/10", "1"}
Init == \E n \in 1..N, m \in {"perc", "pivotal"}, a \in Alphas, x \in {"none", "1/2", "0"} : \E r \in [1..n -> Vals] : v = [method |-> m, alpha |-> a, v |-> x, reps |-> r]
Next == FALSE /\ UNCHANGED v
X == Expected(v.method, v.v, v.reps, v.alpha)
Ordered == (RDefined(X[1]) <=> RDefined(X[2])) /\ (RDefined(X[1]) => RLeq(X[1], X[2]))
Nested == \A a \in Alphas : LET Y == Expected(v.method, v.v, v.reps, a) IN
   (RDefined(X[1]) /\ RDefined(Y[1]) /\ RLeq(v.alpha, a)) => RLeq(X[1], Y[1]) /\ RLeq(Y[2], X[2])
Within == (v.method = "perc" /\ RDefined(X[1])) => LET s == RSort(Defined(v.reps)) IN RLeq(s[1], X[1]) /\ RLeq(X[2], s[Len(s)])
Mirror == LET p == Expected("perc", v.v, v.reps, v.alpha) q == Expected("pivotal", v.v, v.reps, v.alpha) IN
   RDefined(p[1]) => REq(RAdd(p[1], q[2]), RMul("2", v.v)) /\ REq(RAdd(p[2], q[1]), RMul("2", v.v))
Emit == PrintT("CASE" \o ToJson(v))
================================================================================
