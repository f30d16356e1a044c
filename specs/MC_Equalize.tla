------------------------------ MODULE MC_Equalize -------------------------------
(* All tables over two series values, a third value outside the series, a fixed variable and three cases, and   *)
(* all shapes of the request.  Laws: maximal common cases, idempotence, more series keep fewer rows.            *)
EXTENDS Equalize, Json
VARIABLE v
Cells == {"A", "B", "Z"} \X {"1", "2", "3"}                       \* (model, case)
Sq(s) == SetToSeq(s)
Mk(m, c, f) == [id |-> m \o c \o f, model |-> m, fcst_valid_beg |-> "t" \o (IF c = "3" THEN "2" ELSE "1"), fcst_lead |-> IF c = "1" THEN "0" ELSE "12", lev |-> f, x |-> "5"]
Requests == { [series |-> s, fixed |-> f, byIndy |-> b] :
               s \in { <<>>, <<[field |-> "model", members |-> <<"A">>]>>, <<[field |-> "model", members |-> <<"A", "B">>]>>,
                       <<[field |-> "fcst_lead", members |-> <<"0">>], [field |-> "model", members |-> <<"B", "A">>]>> },
               f \in { <<>>, <<[field |-> "lev", members |-> <<"P", "Q">>]>>, <<[field |-> "lev", members |-> <<"P">>]>> },
               b \in BOOLEAN }
Init == \E cs \in SUBSET Cells, q \in Requests, both \in BOOLEAN :
         v = [rows |-> FlattenSeq([k \in DOMAIN Sq(cs) |-> IF both THEN <<Mk(Sq(cs)[k][1], Sq(cs)[k][2], "P"), Mk(Sq(cs)[k][1], Sq(cs)[k][2], "Q")>>
                                                          ELSE <<Mk(Sq(cs)[k][1], Sq(cs)[k][2], IF Sq(cs)[k][2] = "2" THEN "Q" ELSE "P")>>]), q |-> q]
Next == FALSE /\ UNCHANGED v
Dims == v.q.series \o v.q.fixed
R == Equalized(v.rows, Dims, "x", v.q.byIndy)
Idempotent == Equalized(R, Dims, "x", v.q.byIndy) = R
SameCases == \A f \in Combos(Splitting(Dims)) : CasesOf(R, Splitting(Dims), f, "x", v.q.byIndy) = {Case(R[j], "x", v.q.byIndy) : j \in DOMAIN R}
Fewer == Len(R) <= Len(Equalized(v.rows, v.q.fixed, "x", v.q.byIndy))
Maximal == \A j \in DOMAIN v.rows : (~\E k \in DOMAIN R : R[k] = v.rows[j]) =>
              \E f \in Combos(Splitting(Dims)) : Case(v.rows[j], "x", v.q.byIndy) \notin CasesOf(v.rows, Splitting(Dims), f, "x", v.q.byIndy)
Emit == PrintT("CASE" \o ToJson(v))
================================================================================
