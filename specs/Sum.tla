----------------------------------- MODULE Sum ----------------------------------
(* Merging ';'-groups of values and the summary run.  A row is [lab, num].                                      *)
EXTENDS Scores
EQ == INSTANCE Equalize

Same(x, y) == x = y \/ REq(x, y)
Among(x, ms) == \E k \in DOMAIN ms : Same(x, ms[k])
CaseFields == {"fcst_valid_beg", "fcst_lead", "fcst_var", "stat_name"}

(* An entry stands for a line of the result: the rows merged into it and the labels it must carry.              *)
Entries(rows) == [k \in DOMAIN rows |-> [rs |-> <<rows[k]>>, lab |-> rows[k].lab]]
KeyOf(en, field) == [f \in (CaseFields \intersect DOMAIN en.lab) \ {field} |-> en.lab[f]]
(* merge the entries of group g = [field, label, members] that belong to one case *)
MergeGroup(ens, g) ==
  LET mine == SelectSeq(ens, LAMBDA en : Among(en.lab[g.field], g.members))
      rest == SelectSeq(ens, LAMBDA en : ~Among(en.lab[g.field], g.members))
      firsts == SelectSeq([k \in DOMAIN mine |-> k], LAMBDA k : \A j \in 1..(k - 1) : KeyOf(mine[j], g.field) # KeyOf(mine[k], g.field))
      one(k) == LET same == SelectSeq(mine, LAMBDA en : KeyOf(en, g.field) = KeyOf(mine[k], g.field))
                IN [rs |-> FlattenSeq([j \in DOMAIN same |-> same[j].rs]),
                    lab |-> [mine[k].lab EXCEPT ![g.field] = IF g.field = "fcst_lead" THEN g.members[1] ELSE g.label]]
  IN rest \o [j \in DOMAIN firsts |-> one(firsts[j])]
RECURSIVE MergeAll(_, _)
MergeAll(ens, gs) == IF gs = <<>> THEN ens ELSE MergeAll(MergeGroup(ens, Head(gs)), Tail(gs))

(* labels: a merged line carries its case and its groups; any other label comes from one of its rows *)
LabOk(lab, en) ==
  /\ DOMAIN lab = DOMAIN en.lab
  /\ \A f \in DOMAIN lab : Same(lab[f], en.lab[f]) \/ (f \notin CaseFields /\ \E k \in DOMAIN en.rs : Same(lab[f], en.rs[k].lab[f]) /\ Among(en.lab[f], <<en.rs[1].lab[f]>>))
NumOk(x, v) == IF RDefined(v) THEN RDefined(x) /\ RNear(x, v, "1e-9", "1e-9") ELSE x \in Missing
LineIs(line, en) ==
  /\ LabOk(line.lab, en)
  /\ IF Len(en.rs) = 1 THEN \A c \in DOMAIN line.num : Same(line.num[c], en.rs[1].num[c]) \/ NumOk(line.num[c], Merged(c, TableOf(en.rs)))
     ELSE LET t == TableOf(en.rs) IN \A c \in DOMAIN line.num : NumOk(line.num[c], Merged(c, t))

(* e: rows, groups, out (lines) *)
Describe(en) == ToString([k \in DOMAIN en.rs |-> en.rs[k].lab.id])
(* which of the numbers is wrong, for lines with the right labels *)
BadNums(lines, en) == LET t == TableOf(en.rs) cand == {k \in DOMAIN lines : LabOk(lines[k].lab, en)}
  IN IF cand = {} THEN "no such line" ELSE LET k == CHOOSE k \in cand : TRUE IN
     ToString({c \in DOMAIN t : ~NumOk(lines[k].num[c], Merged(c, t))})
MergeVerdict(e) ==
  LET ens == MergeAll(Entries(e.rows), e.groups)
  IN (IF Len(e.out) = Len(ens) THEN {} ELSE {"lines " \o ToString(Len(e.out)) \o " expected " \o ToString(Len(ens))})
     \union {"missing line of " \o Describe(ens[k]) \o " " \o BadNums(e.out, ens[k]) : k \in {j \in DOMAIN ens : ~\E n \in DOMAIN e.out : LineIs(e.out[n], ens[j])}}
     \union {"unexpected line " \o ToString(e.out[n].lab) : n \in {j \in DOMAIN e.out : ~\E k \in DOMAIN ens : LineIs(e.out[j], ens[k])}}

---------------------------------------------------------------------------------
(* The summary run.  e.points: sequence of points, each a sequence of [field, label, members, merge]; without   *)
(* points there is nothing to merge and every row stays.                                                        *)
PointRows(rows, pt) == SelectSeq(rows, LAMBDA r : \A k \in DOMAIN pt : Among(r.lab[pt[k].field], pt[k].members))
PointEntries(rows, pt) == MergeAll(Entries(PointRows(rows, pt)), SelectSeq(pt, LAMBDA d : d.merge))
(* equalization comes first: e.equal is <<>> or the run <<[axes, fixed, indy]>> as in Equalize *)
Surviving(e) == IF e.equal = <<>> THEN e.rows
                ELSE LET left == EQ!RunRows([rows |-> [k \in DOMAIN e.rows |-> e.rows[k].lab], axes |-> e.equal[1].axes, fixed |-> e.equal[1].fixed, indy |-> e.equal[1].indy])
                     IN [k \in DOMAIN left |-> e.rows[CHOOSE j \in DOMAIN e.rows : e.rows[j].lab.id = left[k].id]]
SumEntries(e) == IF e.points = <<>> THEN Entries(Surviving(e)) ELSE FlattenSeq([k \in DOMAIN e.points |-> PointEntries(Surviving(e), e.points[k])])
ValueIs(e, line, en) == Agrees(e.fam, e.lower[en.lab.stat_name], line.value, TableOf(en.rs))
Wrong(e, line, en) == "value " \o Say(e.lower[en.lab.stat_name], line.value, Value(e.fam, e.lower[en.lab.stat_name], TableOf(en.rs))) \o " of " \o Describe(en)

SumVerdict(e) ==
  IF e.err # "" THEN {"failed " \o e.err}
  ELSE LET ens == SumEntries(e) ls == e.out IN
   {"column " \o c \o " not removed" : c \in e.consumed \intersect e.columns}
   \union {"column " \o c \o " lost" : c \in e.kept \ e.columns}
   \union IF Len(ls) # Len(ens) THEN {"lines " \o ToString(Len(ls)) \o " expected " \o ToString(Len(ens))}
      ELSE IF e.points = <<>>
      THEN {"label of " \o Describe(ens[k]) : k \in {j \in DOMAIN ls : ~LabOk(ls[j].lab, ens[j])}}
           \union {Wrong(e, ls[k], ens[k]) : k \in {j \in DOMAIN ls : ~ValueIs(e, ls[j], ens[j])}}
      ELSE UNION {LET cand == {n \in DOMAIN ls : LabOk(ls[n].lab, ens[k])}
                  IN IF cand = {} THEN {"missing line of " \o Describe(ens[k])}
                     ELSE IF \E n \in cand : ValueIs(e, ls[n], ens[k]) THEN {} ELSE {Wrong(e, ls[CHOOSE n \in cand : TRUE], ens[k])} : k \in DOMAIN ens}

SVerdict(e) == IF e.op = "merge" THEN (IF e.err # "" THEN {"failed " \o e.err} ELSE MergeVerdict(e)) ELSE SumVerdict([e EXCEPT !.consumed = ToSet(@), !.columns = ToSet(@), !.kept = ToSet(@)])
================================================================================
