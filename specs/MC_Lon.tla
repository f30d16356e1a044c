---------------------------------- MODULE MC_Lon --------------------------------
EXTENDS Lon, Json
CONSTANTS
 N
VARIABLE v
Xs == {"-720", "-361/2", "-180", "-1/4", "0", "359/2", "180", "359", "360", "541"}
Starts == {"-180", "0", "-30", "45"}
Init == \E n \in 1..N, s \in Starts : \E f \in [1..n -> Xs] : v = [xs |-> f, start |-> s, span |-> "360"]
Next == FALSE /\ UNCHANGED v
C == Converted(v.xs, v.start, v.span)
Laws == /\ Len(C) = Len(v.xs) /\ Sorted(C)
        /\ \A k \in DOMAIN C : RLeq(v.start, C[k]) /\ RLt(C[k], RAdd(v.start, v.span))
        /\ \A k \in DOMAIN v.xs : RIsInt(RDiv(RSub(v.xs[k], Wrap(v.xs[k], v.start, v.span)), v.span))
Again == Converted(C, v.start, v.span) = C                             \* idempotent
Through == \A s \in Starts : Converted(Converted(v.xs, s, v.span), v.start, v.span) = C     \* by any other range
Emit == PrintT("CASE" \o ToJson(v))
================================================================================
