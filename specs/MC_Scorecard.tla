------------------------------ MODULE MC_Scorecard ------------------------------
(* Two models over N times, every pattern of absent and small values: the significance and mean-difference      *)
(* definitions against each other.                                                                              *)
EXTENDS Scorecard, Json
CONSTANTS
 N
VARIABLE v
Vals == {"", "0", "1", "-2"}
Times == [k \in 1..N |-> "2020-01-0" \o ToString(k) \o " 00:00:00"]
Row(m, t, x) == [lab |-> [model |-> m, fcst_valid_beg |-> Times[t], fcst_lead |-> "120000"], value |-> x]
Side(m, f) == SelectSeq([t \in 1..N |-> Row(m, t, f[t])], LAMBDA r : r.value # "")
Init == \E f, g \in [1..N -> Vals] : v = [a |-> f, b |-> g]
Next == FALSE /\ UNCHANGED v
A == Side("A", v.a)
B == Side("B", v.b)
PA == Values(Common(A, B))
PB == Values(Partners(A, B))
Stats == {"FBAR", "RMSE", "ME", "CSI", "FOO"}
Days == {1, 19, 20, 39, 40, 79, 80}
(* the pairing is symmetric, and pairs values of one case *)
Pairing == /\ Len(PA) = Cardinality({t \in 1..N : v.a[t] # "" /\ v.b[t] # ""})
           /\ PB = Values(Common(B, A)) /\ PA = Values(Partners(B, A))
           /\ \A k \in DOMAIN PA : \E t \in 1..N : v.a[t] = PA[k] /\ v.b[t] = PB[k]
Only(S) == CHOOSE x \in S : TRUE
(* swapping the models keeps the strength and turns the sign where one is strictly better *)
NcarSwap == PA # <<>> => \A s \in Stats :
   LET x == Ncar(s, PA, PB) y == Ncar(s, PB, PA) IN
   /\ (s = "FBAR" => x = {"undef"})
   /\ (x = {"undef"}) = (y = {"undef"})
   /\ (Cardinality(x) = 1 /\ Cardinality(y) = 1 /\ x # {"undef"}) =>
        /\ REq(RAbs(Only(x)), RAbs(Only(y)))
        /\ RLeq(RAbs(Only(x)), "1")
        /\ (s \in {"RMSE", "ME"} /\ ~REq(RAbs(RMean(PA)), RAbs(RMean(PB))) /\ RNonZero(Only(x)) => RSgn(Only(x)) = RNeg(RSgn(Only(y))))
EmcSwap == PA # <<>> => \A s \in {"RMSE", "CSI"}, nd \in Days :
   LET x == Emc(s, PA, PB, nd) y == Emc(s, PB, PA, nd) IN
   /\ x \subseteq {"undef", "1", "99/100", "19/20", "0", "-1", "-99/100", "-19/20"}
   /\ y = {IF z = "undef" THEN z ELSE RNeg(z) : z \in x}
(* lower error is better, higher skill is better *)
EmcSense == PA # <<>> => \A nd \in Days : Emc("RMSE", PA, PB, nd) = {IF z = "undef" THEN z ELSE RNeg(z) : z \in Emc("CSI", PA, PB, nd)}
(* critical values increase with the level, and never increase with the number of days *)
CritLaws == \A x, y \in Days : /\ RLt(Crit(x)[1], Crit(x)[2]) /\ RLt(Crit(x)[2], Crit(x)[3])
                               /\ (x <= y => \A k \in 1..3 : RGeq(Crit(x)[k], Crit(y)[k]))
Tables == /\ NoPerfect \cap ZeroPerfect = {} /\ NoPerfect \cap OnePerfect = {} /\ ZeroPerfect \cap OnePerfect = {}
Emit == PrintT("CASE" \o ToJson(v))
================================================================================
