------------------------------- MODULE MC_Vertical ------------------------------
EXTENDS Vertical, Json
CONSTANTS N, H
VARIABLE v
Zs == {"0", "1", "2", "3", "5"}
Fs == {"0", "2", "7"}
Etas == <<"-1", "0", "1/2", "1", "3/2", "2", "5/2", "3", "4", "5", "6">>
Cols(n) == {z \in [1..n -> Zs] : \A k \in 2..n : RLt(z[k - 1], z[k])}
Grounded(z) == {[k \in DOMAIN z |-> IF k <= b THEN "none" ELSE z[k]] : b \in 0..(IF Len(z) > 2 THEN 1 ELSE 0)}
InterpInit == \E n \in 1..N : \E z0 \in Cols(n) : \E z \in Grounded(z0), f \in [1..n -> Fs] :
   v = [op |-> "interp", z |-> z, f |-> f, at |-> Etas]
HeightInit == H /\ \E ps \in {"1010", "1000", "950", "850", "820"}, zs \in {"0", "150"}, t \in {<<"290", "282", "265">>, <<"260", "262", "230">>},
                 r \in {"0", "1/2", "1"} :
   v = [op |-> "height", z |-> <<>>, f |-> <<>>, at |-> <<>>, c |-> [p |-> <<"1000", "850", "500">>, ps |-> ps, zs |-> zs, t |-> t, rh |-> <<r, r, "0">>]]
Init == InterpInit \/ HeightInit
Next == FALSE /\ UNCHANGED v
IsI == v.op = "interp"
Val(eta) == Interp(v.z, v.f, eta)
Whole == \A k \in DOMAIN v.z : RDefined(v.z[k])
(* a value is always between the smallest and largest of the column; surfaces are met exactly *)
Bounds == IsI => LET s == RSort(v.f) IN \A j \in DOMAIN Etas : RDefined(Val(Etas[j])) => RLeq(s[1], Val(Etas[j])) /\ RLeq(Val(Etas[j]), s[Len(s)])
Meets == IsI => \A k \in DOMAIN v.z : RDefined(v.z[k]) => REq(Val(v.z[k]), v.f[k])
Defined == IsI /\ Whole => \A j \in DOMAIN Etas : RDefined(Val(Etas[j]))
Buried == IsI /\ ~Whole => ~RDefined(Val("-1"))
Flipped == IsI => \A j \in DOMAIN Etas : RDefined(Val(Etas[j])) => REq(Interp(v.z, [k \in DOMAIN v.f |-> RNeg(v.f[k])], Etas[j]), RNeg(Val(Etas[j])))
(* linear in the column where the field is the height itself *)
Identity == IsI /\ Whole => \A j \in DOMAIN Etas : (RLeq(v.z[1], Etas[j]) /\ RLeq(Etas[j], v.z[Len(v.z)])) => REq(Interp(v.z, v.z, Etas[j]), Etas[j])
(* a level splitting a piece does not change anything when it lies on the line *)
Refine == IsI /\ Whole /\ Len(v.z) = 2 =>
   LET m == RDiv(RAdd(v.z[1], v.z[2]), "2") IN
   \A j \in DOMAIN Etas : REq(Interp(<<v.z[1], m, v.z[2]>>, <<v.f[1], RDiv(RAdd(v.f[1], v.f[2]), "2"), v.f[2]>>, Etas[j]), Val(Etas[j]))
Upwards == ~IsI => \A k \in 2..3 : RDefined(Height(v.c, k - 1)) => RLt(Height(v.c, k - 1), Height(v.c, k))
AboveGround == ~IsI => \A k \in 1..3 : (RDefined(Height(v.c, k)) <=> RLeq(v.c.p[k], v.c.ps)) /\ (RDefined(Height(v.c, k)) => RGeq(Height(v.c, k), v.c.zs))
Emit == PrintT("CASE" \o ToJson(v))
================================================================================
