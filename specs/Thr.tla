----------------------------------- MODULE Thr ----------------------------------
(* Threshold texts (operator and number) and ROC tables over contingency rows.  A row has op, num (numeral     *)
(* text), c = <<fy_oy, fy_on, fn_oy, fn_on>>; its threshold text is the operator followed by the numeral.       *)
EXTENDS Ctc

OpRank == ("<" :> 1) @@ ("<=" :> 2) @@ ("==" :> 3) @@ ("" :> 3) @@ (">=" :> 4) @@ (">" :> 5)
Text(r) == r.op \o r.num
Below(r, q) == RLt(r.num, q.num) \/ (REq(r.num, q.num) /\ OpRank[r.op] < OpRank[q.op])    \* strictly earlier
InOrder(rs, asc) == \A k \in 1..(Len(rs) - 1) : IF asc THEN ~Below(rs[k + 1], rs[k]) ELSE ~Below(rs[k], rs[k + 1])

(* a sort: ids are positions of input rows in the output order *)
SortVerdict(e) ==
  IF e.err # "none" THEN {"raised " \o e.err}
  ELSE UNION {
    IF Len(e.ids) = Len(e.rows) /\ {e.ids[k] : k \in DOMAIN e.ids} = DOMAIN e.rows THEN {} ELSE {"rows lost or repeated"},
    IF \A k \in DOMAIN e.ids : e.texts[k] = Text(e.rows[e.ids[k]]) THEN {} ELSE {"labels changed"},
    IF InOrder([k \in DOMAIN e.ids |-> e.rows[e.ids[k]]], e.asc) THEN {} ELSE {"order wrong"},
    IF e.unchanged THEN {} ELSE {"input changed"}}

Distinct(rows) == {Text(rows[k]) : k \in DOMAIN rows}
RowsOf(rows, x) == SelectSeq(rows, LAMBDA r : Text(r) = x)
Table(rs) == LET col(j) == [k \in DOMAIN rs |-> rs[k].c[j]] IN [fy_oy |-> col(1), fy_on |-> col(2), fn_oy |-> col(3), fn_on |-> col(4)]
RocPody(rs) == H(Pool(Table(rs)))
RocPofd(rs) == F(Pool(Table(rs)))
RocVerdict(e) ==
  IF e.err # "none" THEN {"raised " \o e.err}
  ELSE LET lab == {e.roc[k].thresh : k \in DOMAIN e.roc}
  IN UNION {
    IF lab = Distinct(e.rows) /\ Cardinality(lab) = Len(e.roc) THEN {} ELSE {"thresholds lost or repeated"},
    IF lab \subseteq Distinct(e.rows) /\ InOrder([k \in DOMAIN e.roc |-> RowsOf(e.rows, e.roc[k].thresh)[1]], e.asc) THEN {} ELSE {"order wrong"},
    UNION {LET rs == RowsOf(e.rows, e.roc[k].thresh) IN
             (IF Agree7(e.roc[k].pody, RocPody(rs)) THEN {} ELSE {Say("pody", e.roc[k].pody, RocPody(rs))})
             \cup (IF Agree7(e.roc[k].pofd, RocPofd(rs)) THEN {} ELSE {Say("pofd", e.roc[k].pofd, RocPofd(rs))}) : k \in DOMAIN e.roc},
    IF e.unchanged THEN {} ELSE {"input changed"}}

ThrVerdict(e) == IF e.op = "sort" THEN SortVerdict(e) ELSE RocVerdict(e)
================================================================================
