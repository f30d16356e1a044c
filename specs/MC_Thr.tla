--------------------------------- MODULE MC_Thr ---------------------------------
(* Tables of up to three rows over all operators and numerals of a small set: the row order is a strict weak   *)
(* order, and an insertion sort by it ends in order (one row inserted per step).                               *)
EXTENDS Thr, Json
CONSTANTS Nums
VARIABLES rows, todo, out
vars == <<rows, todo, out>>
Thrs == {[op |-> o, num |-> n, c |-> <<1, 2, 3, 4>>] : o \in DOMAIN OpRank, n \in Nums}
Init == /\ rows \in UNION {[1..n -> Thrs] : n \in 1..2} \cup {<<a, b, a>> : a \in Thrs, b \in Thrs}
        /\ todo = rows
        /\ out = <<>>
Pos(r) == Cardinality({k \in DOMAIN out : ~Below(r, out[k])})          \* after equals: stable
Next == /\ todo # <<>>
        /\ LET r == Head(todo) p == Pos(r)
           IN out' = SubSeq(out, 1, p) \o <<r>> \o SubSeq(out, p + 1, Len(out))
        /\ todo' = Tail(todo)
        /\ UNCHANGED rows
Sorted == InOrder(out, TRUE)
WeakOrder == \A x \in DOMAIN rows : \A y \in DOMAIN rows : \A z \in DOMAIN rows :
   /\ ~Below(rows[x], rows[x])
   /\ (Below(rows[x], rows[y]) /\ Below(rows[y], rows[z])) => Below(rows[x], rows[z])
   /\ (~Below(rows[x], rows[y]) /\ ~Below(rows[y], rows[x])) => (Below(rows[x], rows[z]) <=> Below(rows[y], rows[z]))
Complete == todo = <<>> => Len(out) = Len(rows) /\ Distinct(out) = Distinct(rows)
Emit == todo = rows => PrintT("CASE" \o ToJson(rows))
================================================================================
