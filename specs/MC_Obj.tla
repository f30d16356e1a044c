--------------------------------- MODULE MC_Obj ---------------------------------
(* Every set of object kinds (source x kind x matching) being present; areas are powers of two and volumes      *)
(* powers of three so that no two selections weigh the same.                                                    *)
EXTENDS Obj, SequencesExt, Json
VARIABLE present
Kinds == {<<f, s, m>> : f \in 0..1, s \in 0..1, m \in 0..1}
Code(k) == 4 * k[1] + 2 * k[2] + k[3]
Init == present \in SUBSET Kinds
Next == FALSE /\ UNCHANGED present
Objs == LET ks == SetToSeq(present) IN [j \in DOMAIN ks |-> [fcst |-> ks[j][1], simple |-> ks[j][2], matched |-> ks[j][3],
           area |-> RPow(2, Code(ks[j])), volume |-> RPow(3, Code(ks[j])), type |-> IF Code(ks[j]) % 3 = 0 THEN "3d" ELSE "2d"]]
T(s, c, m, by) == Tot(Objs, <<s, c, m>>, by)
Partition == \A by \in {"count", "area", "volume"} : \A x \in {"f", "o", "a"} : \A y \in {"s", "c", "a"} :
  /\ REq(RAdd(T(x, y, "m", by), T(x, y, "u", by)), T(x, y, "a", by))
  /\ REq(RAdd(T("f", y, "a", by), T("o", y, "a", by)), T("a", y, "a", by))
  /\ REq(RAdd(T(x, "s", "a", by), T(x, "c", "a", by)), T(x, "a", "a", by))
q(k, by) == [kind |-> k, by |-> by, dim |-> "any", num |-> <<>>, den |-> <<>>]
Scores == \A by \in {"count", "area"} : LET c == ExpObj(q("csi", by), Objs) p == ExpObj(q("pody", by), Objs) f == ExpObj(q("far", by), Objs) IN
  /\ (RDefined(c) => RLeq(0, c) /\ RLeq(c, 1))
  /\ (RDefined(c) /\ RLt(0, c)) => REq(RDiv(1, c), RSub(RAdd(RDiv(1, RSub(1, f)), RDiv(1, p)), 1))
Emit == PrintT("CASE" \o ToJson(Objs))
================================================================================
