--------------------------------- MODULE Limits ---------------------------------
(* Confidence limits from the replicate values of a statistic.                                                  *)
EXTENDS Conf, Sequences, SequencesExt

Defined(reps) == SelectSeq(reps, LAMBDA x : x \notin Missing)
Q(sorted, p) == RQuantile(sorted, p)
AllEqual(s) == \A k \in DOMAIN s : REq(s[k], s[1])
Half(alpha) == RDiv(alpha, "2")

(* <<low, high>> *)
Expected(method, v, reps, alpha) ==
  LET s == RSort(Defined(reps))  lo == Q(s, Half(alpha))  hi == Q(s, RSub("1", Half(alpha)))
  IN IF v \in Missing \/ s = <<>> \/ method \notin {"perc", "pivotal"} THEN <<"undef", "undef">>
     ELSE IF method = "perc" THEN (IF AllEqual(s) THEN <<"undef", "undef">> ELSE <<lo, hi>>)
     ELSE <<RSub(RMul("2", v), hi), RSub(RMul("2", v), lo)>>

Tol == "0.0000000001"
Lim(o, v) == AgreeTol(o, v, Tol, "0.0000000001")
LimitsVerdict(e) ==
  IF e.err # "" THEN {"failed " \o e.err}
  ELSE LET x == Expected(e.method, e.v, e.reps, e.alpha) IN
     (IF Lim(e.low, x[1]) THEN {} ELSE {Say("low", e.low, x[1])})
     \union (IF Lim(e.high, x[2]) THEN {} ELSE {Say("high", e.high, x[2])})
     \union (IF e.value = e.v \/ (RDefined(e.v) /\ RDefined(e.value) /\ REq(e.value, e.v)) THEN {} ELSE {"value " \o e.value \o " expected " \o e.v})

(* a curve of values: limits per point *)
CurveVerdict(e) ==
  IF e.err # "" THEN {"curve failed " \o e.err}
  ELSE UNION {LET x == Expected(e.method, e.v[k], [j \in DOMAIN e.reps |-> e.reps[j][k]], e.alpha) IN
       (IF Lim(e.low[k], x[1]) /\ Lim(e.high[k], x[2]) THEN {} ELSE {"curve " \o Say("low", e.low[k], x[1]) \o Say(" high", e.high[k], x[2])}) : k \in DOMAIN e.v}

(* Whole runs with the same random seed and five replicates.  The limits at alpha 0, 1/2 and 1 are the order     *)
(* statistics of the replicates, which determine the limits at any other alpha and with the pivotal method.     *)
Wide == "0.00000021"
RunVerdict(e) ==
  IF e.err # "" THEN {"run failed " \o e.err}
  ELSE IF \E k \in DOMAIN e.basis : e.basis[k] \in Missing
       THEN (IF (\A k \in DOMAIN e.basis : e.basis[k] \in Missing) /\ (e.method = "perc" => e.low \in Missing /\ e.high \in Missing) THEN {} ELSE {"run limits present for some alpha only"})
  ELSE LET x == Expected(e.method, e.v, e.basis, e.alpha) sorted == \A k \in 1..(Len(e.basis) - 1) : RLeq(e.basis[k], RAdd(e.basis[k + 1], Wide)) IN
     (IF sorted THEN {} ELSE {"run limits are not nested over alpha"})
     \union (IF AgreeTol(e.low, x[1], Wide, "0.000000001") /\ AgreeTol(e.high, x[2], Wide, "0.000000001") THEN {}
             ELSE {"run " \o Say("low", e.low, x[1]) \o Say(" high", e.high, x[2]) \o " alpha " \o e.alpha \o " " \o e.method})
     \union (IF e.median[1] = e.median[2] THEN {} ELSE {"run limits at alpha 1 differ"})

LimVerdict(e) == CASE e.op = "limits" -> LimitsVerdict(e) [] e.op = "curve" -> CurveVerdict(e) [] OTHER -> RunVerdict(e)
================================================================================
