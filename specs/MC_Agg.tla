--------------------------------- MODULE MC_Agg ---------------------------------
(* Small runs: which of the four (model, lead) cells hold rows, and every shape of configuration.               *)
EXTENDS Agg, Json
VARIABLE v
Models == {"A", "B"}  Leads == {"120000", "240000"}
Val(x) == [label |-> x, members |-> <<x>>]
Grp(x, y) == [label |-> x \o ":" \o y, members |-> <<x, y>>]
SeriesShapes == { <<>>, <<[field |-> "model", vals |-> <<Val("A"), Val("B")>>]>>, <<[field |-> "model", vals |-> <<Grp("A", "B")>>]>>,
                  <<[field |-> "model", vals |-> <<Val("B"), Grp("B", "A"), Val("A")>>]>>,
                  <<[field |-> "model", vals |-> <<Val("A"), Val("Z")>>], [field |-> "vx_mask", vals |-> <<Val("X"), Val("Y")>>]>>,
                  <<[field |-> "vx_mask", vals |-> <<Grp("X", "Y")>>], [field |-> "model", vals |-> <<Val("B"), Val("A")>>]>> }
IndyShapes == { <<>>, <<[field |-> "fcst_lead", vals |-> <<Val("120000"), Val("240000")>>]>>, <<[field |-> "fcst_lead", vals |-> <<Grp("240000", "120000"), Val("360000")>>]>> }
StatShapes == {<<"CSI">>, <<"GSS", "BASER">>}
Init == \E present \in SUBSET (Models \X Leads), s \in SeriesShapes, d \in IndyShapes, t \in StatShapes :
           v = [present |-> present, ax |-> [dims |-> s \o d, stats |-> t, var |-> "TMP", series |-> Len(s)]]
Next == FALSE /\ UNCHANGED v
(* abstract rows: one per present cell, mask and statistic *)
Cell(m, l, k) == [lab |-> [model |-> m, fcst_lead |-> l, vx_mask |-> k, fcst_var |-> "TMP", stat_name |-> "CSI"]]
AbsRows == SetToSeq({Cell(c[1], c[2], k) : c \in v.present, k \in {"X", "Y"}})
Count(pt) == Len(Rows(AbsRows, v.ax, pt))
RECURSIVE ProdLen(_)
ProdLen(ds) == IF ds = <<>> THEN 1 ELSE Len(Head(ds).vals) * ProdLen(Tail(ds))
Complete == Len(Points(v.ax)) = ProdLen(v.ax.dims) * Len(v.ax.stats)
Distinct == \A i, j \in DOMAIN Points(v.ax) : i # j => Points(v.ax)[i] # Points(v.ax)[j]
(* a group holds the rows of its members *)
GroupUnion == \A i \in DOMAIN Points(v.ax) : LET pt == Points(v.ax)[i] IN
   \A k \in DOMAIN pt : Len(pt[k].members) = 2 =>
      Count(pt) = Count([pt EXCEPT ![k].members = <<pt[k].members[1]>>]) + Count([pt EXCEPT ![k].members = <<pt[k].members[2]>>])
Emit == PrintT("CASE" \o ToJson([present |-> SetToSeq(v.present), ax |-> v.ax]))
================================================================================
