------------------------------- MODULE MC_Derived -------------------------------
(* Every pair of components over two series dimensions whose values overlap in spelling, every operation, with  *)
(* an independent dimension that shares values too, every presence pattern of the two component cells.          *)
EXTENDS Derived, Json
VARIABLE v
Val(x) == [label |-> x, members |-> <<x>>]
Grp == [label |-> "1:2", members |-> <<"1", "2">>]
DimA == {<<Val("1"), Val("2")>>, <<Val("2"), Val("1")>>, <<Val("3"), Grp>>}
DimB == {<<>>, <<Val("1"), Val("2")>>, <<Grp, Val("3")>>}
Ops == {"DIFF", "DIFF_SIG", "RATIO", "SS", "SINGLE"}
Stats == {"CSI", "GSS"}
Comp(dims, s) == {[vals |-> [k \in DOMAIN dims |-> f[k]], stat |-> s] : f \in {g \in [DOMAIN dims -> UNION {ToSet(dims[k]) : k \in DOMAIN dims}] : \A k \in DOMAIN dims : g[k] \in ToSet(dims[k])}}
Init == \E a \in DimA, b \in DimB, op \in Ops, indy \in {<<>>, <<Val("1"), Val("2")>>} :
          LET dims == IF b = <<>> THEN <<a>> ELSE <<a, b>> IN
          \E c1 \in Comp(dims, "CSI"), c2 \in UNION {Comp(dims, s) : s \in Stats} :
            v = [dims |-> dims, indy |-> indy, first |-> c1, second |-> c2, op |-> op]
Next == FALSE /\ UNCHANGED v
(* laws of the combination on small values *)
Vals == {"0", "1", "-2", "1/3", "none"}
Laws == \A a, b \in Vals :
   /\ (Comb("DIFF", a, b) = "undef") <=> (a = "none" \/ b = "none")
   /\ (RDefined(Comb("RATIO", a, b)) => REq(RMul(Comb("RATIO", a, b), b), a))
   /\ (RDefined(Comb("SS", a, b)) => REq(Comb("SS", a, b), RSub("1", Comb("RATIO", b, a))))
   /\ (Comb("SINGLE", a, b) = "undef" \/ Comb("SINGLE", a, b) = a)
   /\ (RDefined(Comb("DIFF", a, b)) => REq(Comb("DIFF", a, b), RNeg(Comb("DIFF", b, a))))
(* swapping the components turns the sign of a significance, and its size never exceeds one *)
Reps == {<<"1">>, <<"0", "1">>, <<"-1", "1/2", "3">>}
SigLaws == \A s \in {"CSI", "ME", "FBAR", "OTHER"}, a \in {"0", "1", "-2", "1/3"}, b \in {"0", "2", "1/3"}, r \in Reps :
   \A p \in Shares(RSub(a, b), r) :
      /\ RGeq(p, "0") /\ RLeq(p, "1")
      /\ (s = "FBAR" <=> Signed(s, a, b, p) = {"undef"})
      /\ ("yes" \in {Farther(s, a, b)} => Farther(s, b, a) = "no")
Emit == PrintT("CASE" \o ToJson(v))
================================================================================
