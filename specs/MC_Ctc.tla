--------------------------------- MODULE MC_Ctc ---------------------------------
(* All single-line tables with cells 0..M1 and all two-line tables with cells 0..M2: laws that relate the       *)
(* scores to one another, symmetry, pooling.  Every table is emitted as a case for the implementation.          *)
EXTENDS Ctc, Integers, Json
CONSTANTS M1, M2
VARIABLE t

Cell1 == 0..M1
Tab1 == {[fy_oy |-> <<a>>, fy_on |-> <<b>>, fn_oy |-> <<c>>, fn_on |-> <<d>>] : a \in Cell1, b \in Cell1, c \in Cell1, d \in Cell1}
Pairs == {<<x, y>> : x \in 0..M2, y \in 0..M2}
Tab2 == {[fy_oy |-> a, fy_on |-> b, fn_oy |-> c, fn_on |-> d] : a \in Pairs, b \in Pairs, c \in Pairs, d \in Pairs}

Init == t \in Tab1 \cup Tab2
Next == FALSE /\ UNCHANGED t

p == Pool(t)
Swap(q) == [a |-> q.a, b |-> q.c, c |-> q.b, d |-> q.d]       \* forecast and observation exchanged
Neg(q) == [a |-> q.d, b |-> q.c, c |-> q.b, d |-> q.a]        \* event and non-event exchanged
Def(v) == RDefined(v)

Laws ==
  /\ Def(Hk(p)) => REq(Hk(p), RSub(RAdd(H(p), Podn(p)), 1))
  /\ Def(Hss(p)) /\ Def(Gss(p)) => REq(Gss(p), RDiv(Hss(p), RSub(2, Hss(p))))
  /\ Def(Odds(p)) => REq(Orss(p), RDiv(RSub(Odds(p), 1), RAdd(Odds(p), 1)))
  /\ Def(Lodds(p)) => RNear(Lodds(p), RLn(Odds(p)), "1e-30", "0")
  /\ Def(Csi(p)) /\ RLt(0, Csi(p)) => REq(RDiv(1, Csi(p)), RSub(RAdd(RDiv(1, RSub(1, Far(p))), RDiv(1, H(p))), 1))
  /\ Def(Fbias(p)) /\ Def(Far(p)) => REq(H(p), RMul(Fbias(p), RSub(1, Far(p))))
  /\ Def(Bagss(p)) => RLeq(Bagss(p), 1)
Symmetry ==
  /\ \A s \in {"acc", "csi", "gss", "hss", "orss", "odds", "seds"} :
       Def(Score(s, p)) /\ Def(Score(s, Swap(p))) => RNear(Score(s, p), Score(s, Swap(p)), "1e-30", "0")
  /\ \A s \in {"acc", "hss", "orss", "hk", "sedi"} :
       Def(Score(s, p)) /\ Def(Score(s, Neg(p))) => RNear(Score(s, p), Score(s, Neg(p)), "1e-30", "0")
  /\ REq(Podn(p), H(Neg(p))) \/ ~Def(Podn(p))
Range ==
  /\ \A s \in {"baser", "acc", "fmean", "pody", "pofd", "podn", "far", "csi"} :
       Def(Score(s, p)) => RLeq(0, Score(s, p)) /\ RLeq(Score(s, p), 1)
  /\ \A s \in {"gss", "hss", "hk", "orss"} : Def(Score(s, p)) => RLeq(-1, Score(s, p)) /\ RLeq(Score(s, p), 1)
  /\ (REq(p.b, 0) /\ REq(p.c, 0)) => \A s \in {"acc", "pody", "csi", "gss", "hss", "hk", "podn"} : Def(Score(s, p)) => REq(Score(s, p), 1)
Emit == PrintT("CASE" \o ToJson(t))
================================================================================
