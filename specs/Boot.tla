---------------------------------- MODULE Boot ----------------------------------
(* Circular block resampling of n rows with block length L.  A replicate is the sequence of row numbers 1..n.   *)
EXTENDS Conf, Sequences, SequencesExt, Integers
EV == INSTANCE Eclv

Succ(r, n) == (r % n) + 1
Legal(rep, n, L) == /\ Len(rep) = n
                    /\ \A k \in DOMAIN rep : rep[k] \in 1..n
                    /\ \A k \in DOMAIN rep : (k - 1) % L # 0 => rep[k] = Succ(rep[k - 1], n)
(* the replicates, built from their starts *)
Blocks(n, L) == (n + L - 1) \div L
FromStarts(st, n, L) == [k \in 1..n |-> ((st[((k - 1) \div L) + 1] - 1 + ((k - 1) % L)) % n) + 1]
Reps(n, L) == {FromStarts(st, n, L) : st \in [1..Blocks(n, L) -> 1..n]}

Identity(n) == [k \in 1..n |-> k]
StartPos(n, L) == {k \in 1..n : (k - 1) % L = 0}
StartCount(reps, n, L, r) == Cardinality({<<j, k>> \in (DOMAIN reps) \X StartPos(n, L) : reps[j][k] = r})
(* every row starts blocks equally often, within six standard deviations *)
Uniform(reps, n, L) == LET t == ToString(Len(reps) * Blocks(n, L)) ns == ToString(n) IN
   \A r \in 1..n : LET dev == RSub(RMul(ToString(StartCount(reps, n, L, r)), ns), t) IN RLeq(RMul(dev, dev), RMul("36", RMul(t, ns)))

SampleVerdict(e) ==
  IF e.err # "" THEN {"failed " \o e.err}
  ELSE (IF Len(e.reps) = e.iterations THEN {} ELSE {"replicates " \o ToString(Len(e.reps)) \o " expected " \o ToString(e.iterations)})
     \union (IF \A k \in DOMAIN e.reps : Legal(e.reps[k], e.n, e.block) THEN {}
             ELSE {"notblocks " \o ToString(e.reps[CHOOSE k \in DOMAIN e.reps : ~Legal(e.reps[k], e.n, e.block)]) \o " block length " \o ToString(e.block)})
     \union (IF e.value = Identity(e.n) THEN {} ELSE {"value of rows " \o ToString(e.value)})
     \union (IF e.cover => Reps(e.n, e.block) \subseteq ToSet(e.reps) THEN {} ELSE {"unreached replicates"})
     \union (IF Len(e.reps) >= 200 => Uniform(e.reps, e.n, e.block) THEN {} ELSE {"starts not uniform"})

RepeatVerdict(e) == IF e.first = e.second /\ e.err = "" THEN {} ELSE {"notreproducible " \o e.what \o " " \o e.err}

(* whole run: at alpha 0 the limits are the extremes over the replicates; x are the row values in time order    *)
MeanOf(x, rep) == RMean([k \in DOMAIN rep |-> x[rep[k]]])
Tol == "0.000000201"                     \* a difference of two values of seven decimals, written with seven decimals
ExtremeVerdict(e) ==
  IF e.err # "" THEN {"failed " \o e.err}
  ELSE LET n == Len(e.x)  means == {MeanOf(e.x, rep) : rep \in Reps(n, e.block)}
           lo == CHOOSE m \in means : \A q \in means : RLeq(m, q)
           hi == CHOOSE m \in means : \A q \in means : RLeq(q, m)
       IN (IF AgreeTol(e.value, RMean(e.x), Tol, "0.000000001") THEN {} ELSE {"runvalue " \o Say("value", e.value, RMean(e.x))})
          \union (IF REq(lo, hi) THEN {}
                  ELSE IF AgreeTol(e.low, lo, Tol, "0.000000001") /\ AgreeTol(e.high, hi, Tol, "0.000000001") THEN {}
                  ELSE {"runextremes " \o Say("low", e.low, lo) \o " " \o Say("high", e.high, hi)})

(* the same for the economic value at each ratio: e.rows are the counts in file order, e.out the lines [x, y, lo, hi] *)
EclvVerdict(e) ==
  IF e.err # "none" THEN {"failed " \o e.err}
  ELSE IF Len(e.out) # Len(e.grid) THEN {"eclvlines " \o ToString(Len(e.out))}
  ELSE LET n == Len(e.rows)  pools == {EV!CtcPool([k \in DOMAIN rep |-> e.rows[rep[k]]]) : rep \in Reps(n, e.block)}
       IN UNION {LET vs == {EV!Value(q, e.grid[j]) : q \in pools}
                     lo == CHOOSE m \in vs : \A q \in vs : RLeq(m, q)
                     hi == CHOOSE m \in vs : \A q \in vs : RLeq(q, m)
                     o == e.out[j]
                 IN IF REq(lo, hi) \/ (AgreeTol(o.lo, lo, "0.000000101", "0.000000001") /\ AgreeTol(o.hi, hi, "0.000000101", "0.000000001")) THEN {}
                    ELSE {"eclvextremes " \o Say("low", o.lo, lo) \o " " \o Say("high", o.hi, hi)} : j \in DOMAIN e.grid}

BootVerdict(e) == CASE e.op = "sample" -> SampleVerdict(e) [] e.op = "repeat" -> RepeatVerdict(e) [] e.op = "eclv" -> EclvVerdict(e) [] OTHER -> ExtremeVerdict(e)
================================================================================
