--------------------------------- MODULE MC_Eclv --------------------------------
(* All small tables and cost/loss ratios: the expense definition equals the two-branch formula, a perfect       *)
(* forecast has value 1, value never exceeds 1 and peaks at the base rate with value H - F.                     *)
EXTENDS Eclv, Json
CONSTANTS Top, Ratios
VARIABLE q
Init == q \in [a : 0..Top, b : 0..Top, c : 0..Top, d : 0..Top]
Next == FALSE /\ UNCHANGED q
s == Baser(q)
Odd(x) == RDiv(x, RSub(1, x))
Branch(x) == IF RLt(x, s) THEN RSub(RSub(1, F(q)), RProd3(Odd(s), RDiv(1, Odd(x)), RSub(1, H(q))))
             ELSE RSub(H(q), RProd3(RDiv(1, Odd(s)), Odd(x), F(q)))
TwoBranches == HasValue(q) => \A x \in Ratios : REq(Value(q, x), Branch(x))
Peak == HasValue(q) => /\ REq(Value(q, s), RSub(H(q), F(q)))
                       /\ \A x \in Ratios : RLeq(Value(q, x), 1)
                       /\ RLeq(0, RSub(H(q), F(q))) => \A x \in Ratios : RLeq(Value(q, x), Value(q, s))
Perfect == (HasValue(q) /\ q.b = 0 /\ q.c = 0) => \A x \in Ratios : REq(Value(q, x), 1)
Undefined == ~HasValue(q) => ~RDefined(Value(q, "1/2"))
Emit == PrintT("CASE" \o ToJson(q))
================================================================================
