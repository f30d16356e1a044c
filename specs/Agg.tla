----------------------------------- MODULE Agg ----------------------------------
(* The aggregation run: a configuration of series, independent values and statistics per axis, a table of       *)
(* rows, and the lines the run writes.                                                                          *)
EXTENDS Conf, Sequences, SequencesExt
C == INSTANCE Ctc
P == INSTANCE PSums
SS == INSTANCE Scores

(* An axis is [dims, stats, var]; dims is the sequence of label dimensions [field, vals] in writing order (series *)
(* variables, then the independent variable when there is one); a value is [label, members].                    *)
Eq(x, y) == x = y \/ REq(x, y)                                    \* numbers by value, everything else as text
In(x, members) == \E k \in DOMAIN members : Eq(x, members[k])     \* a group is the union of its members

RECURSIVE Prod(_)
Prod(dims) == IF dims = <<>> THEN <<<<>>>>
              ELSE LET rest == Prod(Tail(dims)) vals == Head(dims)
                   IN FlattenSeq([k \in DOMAIN vals |-> [j \in DOMAIN rest |-> <<vals[k]>> \o rest[j]]])
Points(ax) == Prod([k \in DOMAIN ax.dims |-> ax.dims[k].vals] \o <<[k \in DOMAIN ax.stats |-> [label |-> ax.stats[k], members |-> <<ax.stats[k]>>]]>>)
Fields(ax) == [k \in DOMAIN ax.dims |-> ax.dims[k].field] \o <<"stat_name">>

Matches(row, ax, pt) ==
  LET fs == Fields(ax) IN
  /\ \A k \in DOMAIN fs : fs[k] \in DOMAIN row.lab => In(row.lab[fs[k]], pt[k].members)
  /\ (ax.var # "" /\ "fcst_var" \in DOMAIN row.lab) => row.lab.fcst_var = ax.var
Rows(rows, ax, pt) == SelectSeq(rows, LAMBDA r : Matches(r, ax, pt))
Table(rs, cols) == [c \in cols |-> [k \in DOMAIN rs |-> rs[k].num[c]]]
StatOf(ax, pt) == pt[Len(pt)].label

CtcCols == {"fy_oy", "fy_on", "fn_oy", "fn_on"}
SlCols == {"fbar", "obar", "fobar", "ffbar", "oobar", "mae", "total"}
(* does the written value agree with the statistic of the selected rows? *)
ValueOk(fam, low, o, rs) ==
  IF rs = <<>> THEN o \in Missing
  ELSE IF fam = "ctc" THEN LET p == C!Pool(Table(rs, CtcCols)) v == C!Score(low, p)
                           IN AgreeTol(o, v, IF RDefined(v) THEN C!Tol(low, p) ELSE "0", "0.000000001")
  ELSE IF fam = "sl1l2" THEN P!AgreeSl(low, o, Table(rs, SlCols))
  ELSE SS!Agrees(fam, low, o, SS!TableOf(rs))
ValueExp(fam, low, rs) == IF rs = <<>> THEN "undef" ELSE IF fam = "ctc" THEN C!Score(low, C!Pool(Table(rs, CtcCols)))
                          ELSE IF fam = "sl1l2" THEN P!ExpSl(low, Table(rs, SlCols)) ELSE SS!Value(fam, low, SS!TableOf(rs))

LineBad(e, ax, pt, line) ==
  LET fs == Fields(ax)  rs == Rows(e.rows, ax, pt)  low == e.lower[StatOf(ax, pt)]
  IN {"label " \o fs[k] \o " is " \o line.lab[fs[k]] \o " expected " \o pt[k].label : k \in {j \in DOMAIN fs : line.lab[fs[j]] # pt[j].label}}
     \union (IF line.lab.fcst_var = (IF ax.var = "" THEN "none" ELSE ax.var) THEN {} ELSE {"label fcst_var is " \o line.lab.fcst_var})
     \union (IF "anyN" \in DOMAIN e \/ line.n = ToString(Len(rs)) THEN {} ELSE {"nstats " \o line.n \o " expected " \o ToString(Len(rs))})
     \union (IF ValueOk(e.fam, low, line.value, rs) THEN {} ELSE {"value " \o Say(low, line.value, ValueExp(e.fam, low, rs))})
     \union (IF e.iterations = 1 /\ (line.low # "none" \/ line.high # "none") THEN {"limits without replicates"} ELSE {})

AllPoints(e) == FlattenSeq([k \in DOMAIN e.axes |-> LET ps == Points(e.axes[k]) IN [j \in DOMAIN ps |-> [ax |-> k, pt |-> ps[j]]]])
(* a run that appends adds its lines below those of the run before *)
HowOften(e) == IF "times" \in DOMAIN e THEN e.times ELSE 1
AggVerdict(e) ==
  IF e.err # "" THEN {"failed " \o e.err}
  ELSE LET ps == FlattenSeq([k \in 1..HowOften(e) |-> AllPoints(e)])
       IN IF Len(ps) # Len(e.lines) THEN {"lines " \o ToString(Len(e.lines)) \o " expected " \o ToString(Len(ps))}
          ELSE UNION {LineBad(e, e.axes[ps[k].ax], ps[k].pt, e.lines[k]) : k \in DOMAIN ps}
================================================================================
