------------------------------- MODULE MC_ObjRun --------------------------------
(* Configurations of the object-ratio run over two models and two leads, and the cells that hold objects.       *)
EXTENDS ObjRun, Json
VARIABLE v
Val(x) == [label |-> x, members |-> <<x>>]
Grp(x, y) == [label |-> x \o ":" \o y, members |-> <<x, y>>]
Series == { <<[field |-> "model", vals |-> <<Val("A"), Val("B")>>]>>, <<[field |-> "model", vals |-> <<Grp("A", "B")>>]>>,
            <<[field |-> "model", vals |-> <<Val("B"), Grp("A", "B")>>]>>,
            <<[field |-> "interp", vals |-> <<Val("1"), Val("9")>>]>>,
            <<[field |-> "model", vals |-> <<Val("A")>>], [field |-> "interp", vals |-> <<Grp("1", "9"), Val("9")>>]>> }
Indys == {<<Val("60000")>>, <<Val("120000"), Val("60000")>>}
Stats == {<<"RATIO_FSA_ASA">>, <<"AREARAT_OSA_ASA", "OBJHITS">>, <<"RATIO_FSM_FSA", "OBJCSI", "OBJAFAS">>}
Init == \E present \in SUBSET ({"A", "B"} \X {"60000", "120000"}), s \in Series, d \in Indys, t \in Stats, two \in BOOLEAN :
          v = [present |-> present, two |-> two, ax |-> [dims |-> Append(s, [field |-> "fcst_lead", vals |-> d]), stats |-> t, var |-> "APCP", series |-> Len(s)]]
Next == FALSE /\ UNCHANGED v
(* laws of the ratios: complements add up, a ratio of a code with itself is one when defined *)
AllObj == {[fcst |-> f, simple |-> s, matched |-> m, area |-> a, volume |-> "1", type |-> "2d"] : f \in 0..1, s \in 0..1, m \in 0..1, a \in {"1", "3"}}
Emit == PrintT("CASE" \o ToJson([present |-> SetToSeq(v.present), two |-> v.two, ax |-> v.ax]))
Complete == Len(Points(v.ax)) > 0 /\ \A i, j \in DOMAIN Points(v.ax) : i # j => Points(v.ax)[i] # Points(v.ax)[j]
================================================================================
