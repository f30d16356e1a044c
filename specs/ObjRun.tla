--------------------------------- MODULE ObjRun ---------------------------------
(* The object-ratio run: points as in the aggregation run, rows are objects, the statistic is a ratio.          *)
EXTENDS Agg
O == INSTANCE Obj

Objs(rs) == [k \in DOMAIN rs |-> rs[k].obj]
Stat(e, ax, pt) == e.lower[StatOf(ax, pt)]
ExpPt(e, ax, pt, rs) == IF rs = <<>> THEN "undef" ELSE O!ExpObj(Stat(e, ax, pt), Objs(rs))

(* the cases that are resampled: those of any series of the axis at the independent value of the point *)
IndyPos(ax) == Len(ax.dims)
CasesAt(e, ax, pt) == {r.lab.fcst_valid : r \in UNION {ToSet(Rows(e.rows, ax, q)) : q \in {p \in ToSet(Points(ax)) : p[IndyPos(ax)] = pt[IndyPos(ax)]}}}
(* a replicate is the ratio over the objects of the drawn cases *)
Reps(e, ax, pt, rs) == {v \in {O!ExpObj(Stat(e, ax, pt), Objs(SelectSeq(rs, LAMBDA r : r.lab.fcst_valid \in S))) : S \in (SUBSET CasesAt(e, ax, pt)) \ {{}}} : RDefined(v)}
Lo(s) == CHOOSE m \in s : \A q \in s : RLeq(m, q)
Hi(s) == CHOOSE m \in s : \A q \in s : RLeq(q, m)
LimitsBad(e, ax, pt, line, rs) ==
  IF e.iterations = 1 \/ rs = <<>> \/ ~RDefined(ExpPt(e, ax, pt, rs)) THEN (IF line.low = "none" /\ line.high = "none" THEN {} ELSE {"limits without replicates"})
  ELSE LET reps == Reps(e, ax, pt, rs) IN
     IF line.low = "none" /\ line.high = "none" THEN (IF e.exact /\ ~REq(Lo(reps), Hi(reps)) THEN {"limits missing"} ELSE {})
     ELSE IF line.low = "none" \/ line.high = "none" THEN {"limits half missing"}
     ELSE (IF RLeq(line.low, line.high) THEN {} ELSE {"limits reversed"})
          \union (IF RLeq(RSub(Lo(reps), "0.0000001"), line.low) /\ RLeq(line.high, RAdd(Hi(reps), "0.0000001")) THEN {} ELSE {"limits outside the resampled ratios"})
          \union (IF e.exact => Agree7(line.low, Lo(reps)) /\ Agree7(line.high, Hi(reps)) THEN {} ELSE {"limits " \o Say("low", line.low, Lo(reps)) \o " " \o Say("high", line.high, Hi(reps))})

ObjLineBad(e, ax, pt, line) ==
  LET fs == Fields(ax)  rs == Rows(e.rows, ax, pt)
  IN {"label " \o fs[k] \o " is " \o line.lab[fs[k]] \o " expected " \o pt[k].label : k \in {j \in DOMAIN fs : line.lab[fs[j]] # pt[j].label}}
     \union (IF line.lab.fcst_var = (IF ax.var = "" THEN "none" ELSE ax.var) THEN {} ELSE {"label fcst_var is " \o line.lab.fcst_var})
     \union (IF line.n = ToString(Len(rs)) THEN {} ELSE {"nstats " \o line.n \o " expected " \o ToString(Len(rs))})
     \union (IF Agree7(line.value, ExpPt(e, ax, pt, rs)) THEN {} ELSE {"value " \o Say(StatOf(ax, pt), line.value, ExpPt(e, ax, pt, rs))})
     \union LimitsBad(e, ax, pt, line, rs)

ObjRunVerdict(e) ==
  IF e.err # "" THEN {"failed " \o e.err}
  ELSE LET ps == AllPoints(e)
       IN IF Len(ps) # Len(e.lines) THEN {"lines " \o ToString(Len(e.lines)) \o " expected " \o ToString(Len(ps))}
          ELSE UNION {ObjLineBad(e, e.axes[ps[k].ax], ps[k].pt, e.lines[k]) : k \in DOMAIN ps}
================================================================================
