-------------------------------- MODULE MC_NcOut ---------------------------------
(* Winds on rays all around; every day of several years walked one after the other.                               *)
EXTENDS NcOut, Json
CONSTANT Years
VARIABLE v
Azimuths == {"0", "45", "90", "135", "180", "270", "300", "359"}
Comp == {"0", "1", "-3", "10"}
Init == \/ \E a \in Azimuths, x \in Comp, y \in Comp : v = [op |-> "winds", az |-> a, u |-> x, v |-> y]
        \/ v = [op |-> "day", t |-> [y |-> 1970, m |-> 1, d |-> 1, h |-> 0, min |-> 0]]
Tomorrow(t) == IF t.d < MonthLen(t.y, t.m) THEN [t EXCEPT !.d = @ + 1]
               ELSE IF t.m < 12 THEN [t EXCEPT !.d = 1, !.m = @ + 1] ELSE [t EXCEPT !.d = 1, !.m = 1, !.y = @ + 1]
Next == v.op = "day" /\ v.t.y < 1970 + Years /\ v' = [v EXCEPT !.t = Tomorrow(@)]
N12(a, b) == RNear(a, b, "0.000000000001", "0")
(* a rotation: speed kept; the wind along the ray is radial; turning wind and ray together changes nothing *)
WindLaws == v.op = "winds" =>
   /\ N12(RAdd(RSq(Radial(v.az, v.u, v.v)), RSq(Tangential(v.az, v.u, v.v))), RAdd(RSq(v.u), RSq(v.v)))
   /\ LET r == Ray(v.az) IN N12(Radial(v.az, r.c, r.s), "1") /\ N12(Tangential(v.az, r.c, r.s), "0")
   /\ N12(Radial(v.az, v.u, v.v), Radial(RAdd(v.az, "90"), RNeg(v.v), v.u))
(* days count by one *)
DayLaw == v.op = "day" => Day(Tomorrow(v.t)) = Day(v.t) + 1
Known == (v.op = "day" /\ v.t.y = 2000 /\ v.t.m = 3 /\ v.t.d = 1) => Day(v.t) = 11017
Emit == v.op # "winds" \/ PrintT("CASE" \o ToJson(v))
================================================================================
