------------------------------- MODULE Difficulty -------------------------------
(* Forecast difficulty of a grid of ensemble forecasts, and its piecewise linear taper.                         *)
EXTENDS Conf, Sequences
(* p = [x, y, left, right]: knots ascending in x *)
KnotsOk(p) == Len(p.x) >= 2 /\ Len(p.x) = Len(p.y) /\ \A k \in 2..Len(p.x) : RLeq(p.x[k - 1], p.x[k])
Taper(p, x) ==
  LET n == Len(p.x) IN
  IF RLt(x, p.x[1]) THEN p.left
  ELSE IF RGt(x, p.x[n]) THEN p.right
  ELSE IF REq(x, p.x[n]) THEN p.y[n]
  ELSE LET k == CHOOSE j \in 1..(n - 1) : RLeq(p.x[j], x) /\ RLt(x, p.x[j + 1])
       IN RAdd(p.y[k], RDiv(RMul(RSub(x, p.x[k]), RSub(p.y[k + 1], p.y[k])), RSub(p.x[k + 1], p.x[k])))
Default == [x |-> <<"3", "9", "12", "21">>, y |-> <<"0", "1.5", "1.5", "0">>, left |-> "0", right |-> "0"]
Eps32 == "0.00000011920928955078125"

(* g = [sigma, mu, members, threshold, ref, under]: sigma, mu and members (sequences) per point of the flattened grid *)
Points(g) == DOMAIN g.sigma
Rel(g, k) == RDiv(g.sigma[k], g.mu[k])
Biggest(g) == LET s == RSort([k \in Points(g) |-> Rel(g, k)]) IN s[Len(s)]
Norm(g) == RMax(g.ref, Biggest(g))
Below(g, k) == RDiv(Cardinality({j \in DOMAIN g.members[k] : RLt(g.members[k][j], g.threshold)}), Len(g.members[k]))
Index(g, p, k) == RMul(RMul("1/2", Taper(p, g.mu[k])),
                       RAdd(RDiv(Rel(g, k), Norm(g)), RSub("1", RAbs(RSub(RSub("1", g.under), Below(g, k))))))
GridOk(g) == (\A k \in Points(g) : RGeq(g.sigma[k], Eps32)) /\ RGeq(g.ref, Eps32) /\ RGeq(g.under, "0") /\ RLeq(g.under, "1")

Ok(o, v) == IF RDefined(v) THEN AgreeTol(o, v, "0.000000000001", "0.0000000001") ELSE o = "nan"
DiffVerdict(e) ==
  CASE e.op = "taper" ->
         IF ~KnotsOk(e.p) THEN (IF e.err = e.refusal THEN {} ELSE {"accepted bad knots " \o e.err})
         ELSE IF e.err # "" THEN {"failed " \o e.err}
         ELSE {"taper at " \o e.at[k] \o " " \o Say("", e.out[k], Taper(e.p, e.at[k])) : k \in {j \in DOMAIN e.at : ~Ok(e.out[j], Taper(e.p, e.at[j]))}}
    [] OTHER ->
         IF ~GridOk(e.g) THEN (IF e.err = "exc:AssertionError" THEN {} ELSE {"accepted bad input " \o e.err})
         ELSE IF e.err # "" THEN {"failed " \o e.err}
         ELSE IF Len(e.out) # Len(e.g.sigma) THEN {"shape"}
         ELSE {"index at " \o ToString(k) \o Say("", e.out[k], Index(e.g, e.p, k)) : k \in {j \in Points(e.g) : ~Ok(e.out[j], Index(e.g, e.p, j))}}
================================================================================
