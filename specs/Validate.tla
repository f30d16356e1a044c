------------------------------- MODULE Validate ---------------------------------
(* Validation of plots: configurations of a period are run again, the plots compared, and what is of no further use removed. *)
EXTENDS Conf, Sequences, FiniteSets
(* configuration x: [name, ext, day, plot, pext, orig, new, extra]
     orig  in {"none", "image", "bad"}                              the plot made before
     new   in {"none", "same", "other", "size", "bad"}              the plot made now, compared with it
     extra  names of the by-products made now, as [dir, name]                                                   *)
Selected(x, lo, hi) == x.ext = ".xml" /\ lo <= x.day /\ x.day <= hi
Outcome(x) == IF x.orig = "none" /\ x.new = "none" THEN "missing"
              ELSE IF x.orig # "image" \/ x.new \notin {"same", "other"} THEN "error"
              ELSE IF x.new = "same" THEN "identical" ELSE "different"
Good(x) == Outcome(x) \in {"missing", "identical"}
(* what is left of it in the output directories *)
Left(x) == IF Good(x) THEN {} ELSE
  {[dir |-> "xml", name |-> x.name \o "_py.xml"]}
  \cup (IF x.new = "none" THEN {} ELSE {[dir |-> "plots", name |-> x.plot \o "_py" \o x.pext]})
  \cup (IF Outcome(x) = "different" THEN {[dir |-> "plots", name |-> x.plot \o "_thresh" \o x.pext]} ELSE {})
  \cup {x.extra[k] : k \in DOMAIN x.extra}
LeftOver(xs, lo, hi) == UNION {Left(x) : x \in {y \in xs : Selected(y, lo, hi)}}
Outputs == {"xml", "plots", "data", "scripts"}

(* a run.  e: [lo, hi, conf, before, after, lines, ran, err]; files are [dir, name, content] *)
Names(fs) == {[dir |-> f.dir, name |-> f.name] : f \in fs}
Set(s) == {s[k] : k \in DOMAIN s}
Range(e) == IF e.hi < e.lo THEN "refused" ELSE "ok"
RanOk(r, x, e) ==
  (IF r.plot_file = x.plot \o "_py" \o x.pext THEN {} ELSE {"plot_file"})
  \cup (IF r.data_file = x.plot \o "_py.data" THEN {} ELSE {"data_file"})
  \cup (IF r.r_file = x.plot \o "_py.R" THEN {} ELSE {"r_file"})
  \cup {f \in {"plots", "data", "scripts", "r_tmpl", "r_work", "user", "password", "title"} : r[f] # e.want[f]}
RunVerdict(e) ==
  LET xs == Set(e.conf)
      sel == SelectSeq(e.conf, LAMBDA x : Selected(x, e.lo, e.hi))      \* given in name order
      before == Set(e.before)
      after == Set(e.after)
      out(fs) == {f \in fs : f.dir \in Outputs}
      rest(fs) == {f \in fs : f.dir \notin Outputs} IN
  (IF rest(before) = rest(after) THEN {} ELSE {"touched " \o (CHOOSE f \in (rest(before) \ rest(after)) \cup (rest(after) \ rest(before)) : TRUE).dir})
  \cup (IF Range(e) = "refused" THEN IF e.err = "exc:KeyError" THEN {} ELSE {"period accepted " \o e.err}
  ELSE IF e.err # "" THEN {"failed " \o e.err} ELSE
    (IF e.ran = <<>> /\ sel = <<>> THEN {}
     ELSE IF Len(e.ran) # Len(sel) \/ \E k \in DOMAIN sel : k <= Len(e.ran) /\ e.ran[k].xml # sel[k].name \o "_py.xml" THEN {"selection"}
     ELSE UNION {{"configuration " \o f : f \in RanOk(e.ran[k], sel[k], e)} : k \in DOMAIN sel})
    \cup (IF [k \in DOMAIN sel |-> <<sel[k].plot \o sel[k].pext, Outcome(sel[k])>>] = e.lines THEN {} ELSE {"outcomes"})
    \cup (LET want == LeftOver(xs, e.lo, e.hi)
              got == Names(out(after)) IN
          {"removed " \o f.dir : f \in want \ got} \cup {"kept " \o f.dir : f \in got \ want}))
SelVerdict(e) == IF e.hi < e.lo THEN IF e.err = "exc:KeyError" THEN {} ELSE {"period accepted " \o e.err}
  ELSE IF e.err # "" THEN {"failed " \o e.err}
  ELSE IF e.got = [k \in DOMAIN SelectSeq(e.conf, LAMBDA x : Selected(x, e.lo, e.hi)) |->
                    LET x == SelectSeq(e.conf, LAMBDA y : Selected(y, e.lo, e.hi))[k] IN x.name \o x.ext] THEN {} ELSE {"selection"}
ValVerdict(e) == IF e.op = "run" THEN RunVerdict(e) ELSE SelVerdict(e)
================================================================================
