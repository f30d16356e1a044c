------------------------------ MODULE MC_Difficulty -----------------------------
EXTENDS Difficulty, Json
VARIABLE v
Sig == {"1/2", "2"}
Mu == {"2", "3", "6", "12"}
Mem == {<<"1", "5">>, <<"5", "5">>, <<"1", "4">>}
Init == \E s \in [1..2 -> Sig], m \in [1..2 -> Mu], x \in [1..2 -> Mem], r \in {Eps32, "3"}, u \in {"1/2", "2/5", "0"}, t \in {"4", "5"} :
   v = [sigma |-> s, mu |-> m, members |-> x, threshold |-> t, ref |-> r, under |-> u]
Next == FALSE /\ UNCHANGED v
D(g, k) == Index(g, Default, k)
Swap(g) == [g EXCEPT !.sigma = <<g.sigma[2], g.sigma[1]>>, !.mu = <<g.mu[2], g.mu[1]>>, !.members = <<g.members[2], g.members[1]>>]
Bounds == \A k \in 1..2 : RGeq(D(v, k), "0") /\ RLeq(D(v, k), "3/2")
Symmetric == D(Swap(v), 1) = D(v, 2) /\ D(Swap(v), 2) = D(v, 1)
(* the other point acts through the common normaliser only *)
Local == \A s \in Sig, x \in Mem : LET w == [v EXCEPT !.sigma[2] = s, !.members[2] = x] IN REq(Norm(w), Norm(v)) => D(w, 1) = D(v, 1)
(* the taper meets its knots, and lies between them on every piece *)
TaperLaws == /\ \A k \in 1..4 : REq(Taper(Default, Default.x[k]), Default.y[k])
             /\ REq(Taper(Default, "6"), "3/4") /\ REq(Taper(Default, "33/2"), "3/4")
             /\ Taper(Default, "2.9") = "0" /\ Taper(Default, "22") = "0"
Emit == PrintT("CASE" \o ToJson(v))
================================================================================
