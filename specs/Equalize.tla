-------------------------------- MODULE Equalize --------------------------------
(* Event equalization.  A table is a sequence of rows, a row a function from column to cell text ("none" for a  *)
(* missing cell).  A dimension is [field, members]: the values, groups taken apart, a series or fixed variable    *)
(* takes.                                                                                                       *)
EXTENDS Conf, Sequences, SequencesExt

(* variables that are part of the case itself do not split the data into series *)
CaseVars == {"", "fcst_valid_beg", "fcst_lead", "fcst_valid", "fcst_init", "fcst_init_beg", "VALID", "LEAD"}
Hit(cell, m) == IF m = "NA" THEN cell = "none" ELSE cell = m \/ (RDefined(cell) /\ RDefined(m) /\ REq(cell, m))
HitAny(cell, ms) == \E k \in DOMAIN ms : Hit(cell, ms[k])

ValidOf(r) == IF "fcst_valid_beg" \in DOMAIN r THEN r.fcst_valid_beg ELSE r.fcst_valid
Case(r, indy, byIndy) == <<ValidOf(r), r.fcst_lead>> \o (IF byIndy /\ indy \notin CaseVars THEN <<r[indy]>> ELSE <<>>)

Splitting(dims) == SelectSeq(dims, LAMBDA d : d.field \notin CaseVars)
(* later entries for the same field replace earlier ones (a fixed variable that is also a series variable) *)
Combos(dims) == {f \in [DOMAIN dims -> UNION {ToSet(dims[k].members) : k \in DOMAIN dims}] : \A k \in DOMAIN dims : f[k] \in ToSet(dims[k].members)}
InCombo(r, dims, f) == \A k \in DOMAIN dims : Hit(r[dims[k].field], f[k])
CasesOf(rows, dims, f, indy, byIndy) == {Case(rows[j], indy, byIndy) : j \in {i \in DOMAIN rows : InCombo(rows[i], dims, f)}}

Common(rows, alldims, indy, byIndy) ==
  LET dims == Splitting(alldims)
  IN {c \in {Case(rows[j], indy, byIndy) : j \in DOMAIN rows} : \A f \in Combos(dims) : c \in CasesOf(rows, dims, f, indy, byIndy)}
Equalized(rows, dims, indy, byIndy) == LET cs == Common(rows, dims, indy, byIndy) IN SelectSeq(rows, LAMBDA r : Case(r, indy, byIndy) \in cs)

----------------------------------------------------------------------------------
(* A run: axes [series, vars] with vars a sequence of [var, stats]; fixed dimensions shared by the axes.        *)
SelectSeries(rows, series) == SelectSeq(rows, LAMBDA r : \A k \in DOMAIN series : HitAny(r[series[k].field], series[k].members))
VarStat(ax) == FlattenSeq([k \in DOMAIN ax.vars |-> [j \in DOMAIN ax.vars[k].stats |-> <<ax.vars[k].var, ax.vars[k].stats[j]>>]])
AxisRows(rows, ax, fixed, indy) ==
  LET vs == VarStat(ax)
      sel(k) == SelectSeq(SelectSeries(rows, ax.series), LAMBDA r : r.fcst_var = vs[k][1] /\ r.stat_name = vs[k][2])
  IN FlattenSeq([k \in DOMAIN vs |-> Equalized(sel(k), ax.series \o fixed, indy, TRUE)])
Union2(a, b) == a \o SelectSeq(b, LAMBDA x : ~\E k \in DOMAIN a : a[k] = x)
Merge(s1, s2) == [k \in DOMAIN s1 |-> LET m == {j \in DOMAIN s2 : s2[j].field = s1[k].field} IN
                     IF m = {} THEN s1[k] ELSE [s1[k] EXCEPT !.members = Union2(@, s2[CHOOSE j \in m : TRUE].members)]]
                 \o SelectSeq(s2, LAMBDA d : ~\E k \in DOMAIN s1 : s1[k].field = d.field)
RunRows(e) ==
  LET a1 == AxisRows(e.rows, e.axes[1], e.fixed, e.indy)
  IN IF Len(e.axes) = 1 THEN a1
     ELSE Equalized(a1 \o AxisRows(e.rows, e.axes[2], e.fixed, e.indy), Merge(e.axes[1].series, e.axes[2].series) \o e.fixed, e.indy, TRUE)
(* the file driver without variables: one series variable per axis *)
DrvAxis(e, ax) == Equalized(SelectSeries(e.rows, ax.series), ax.series \o e.fixed, e.indy, TRUE)
DrvRows(e) ==
  LET a1 == DrvAxis(e, e.axes[1])
  IN IF Len(e.axes) = 1 THEN a1
     ELSE Equalized(a1 \o DrvAxis(e, e.axes[2]), Merge(e.axes[1].series, e.axes[2].series) \o e.fixed, e.indy, TRUE)

----------------------------------------------------------------------------------
(* Against a list of reference cases <<valid, lead>> *)
AgainstRows(rows, cases) == SelectSeq(rows, LAMBDA r : "fcst_valid" \in DOMAIN r /\ <<r.fcst_valid, r.fcst_lead>> \in ToSet(cases))
EqzAxis(e, ax) ==
  FlattenSeq([k \in DOMAIN ax.vars |-> FlattenSeq([j \in DOMAIN ax.series |->
     LET s == <<ax.series[j]>>
         mine(rs) == SelectSeq(SelectSeries(rs, s), LAMBDA r : r.fcst_var = ax.vars[k].var)
         refs == [i \in DOMAIN mine(e.refs) |-> mine(e.refs)[i].case]
     IN AgainstRows(mine(e.rows), refs)])])
EqzRows(e) == IF ~e.on THEN e.rows ELSE FlattenSeq([k \in DOMAIN e.axes |-> EqzAxis(e, e.axes[k])])

----------------------------------------------------------------------------------
Ids(rs) == [k \in DOMAIN rs |-> IF "id" \in DOMAIN rs[k] THEN rs[k].id ELSE ToString(rs[k])]
Differ(got, want) ==
  IF got = want THEN {}
  ELSE IF Ids(got) = Ids(want) THEN {"altered rows"}
  ELSE IF Len(got) = Len(want) /\ ToSet(Ids(got)) = ToSet(Ids(want)) THEN {"order of rows"}
  ELSE {"rows kept " \o ToString(Ids(got)) \o " expected " \o ToString(Ids(want))}
EqVerdict(e) ==
  IF e.err # "" THEN {"failed " \o e.err}
  ELSE CASE e.op = "table" -> Differ(e.out, Equalized(e.rows, e.series \o e.fixed, e.indy, e.byIndy))
                              \union (IF e.again = e.out THEN {} ELSE {"again changes the table"})
         [] e.op = "run" -> Differ(e.out, RunRows(e))
         [] e.op = "driver" -> Differ(e.out, DrvRows(e))
         [] e.op = "against" -> Differ(e.out, AgainstRows(e.rows, e.cases))
         [] e.op = "eqz" -> Differ(e.out, EqzRows(e))
================================================================================
