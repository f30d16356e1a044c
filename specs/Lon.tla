----------------------------------- MODULE Lon ----------------------------------
(* Conversion of longitudes to a target range [start, start + span).                                            *)
EXTENDS Conf, Sequences
Wrap(x, start, span) == RAdd(RMod(RSub(x, start), span), start)
Sorted(s) == \A k \in 2..Len(s) : RLeq(s[k - 1], s[k])
Converted(xs, start, span) == RSort([k \in DOMAIN xs |-> Wrap(xs[k], start, span)])
LonVerdict(e) ==
  LET v == Converted(e.xs, e.start, e.span) IN
  IF e.err # "" THEN {"failed " \o e.err}
  ELSE (IF Len(e.out) = Len(v) /\ \A k \in DOMAIN v : REq(e.out[k], v[k]) THEN {} ELSE {"values " \o ToString(e.out) \o " expected " \o ToString(v)})
       \union (IF e.op # "indices" THEN {}
               ELSE IF Len(e.out) # Len(e.xs) THEN {}
               ELSE IF {e.idx[k] : k \in DOMAIN e.idx} # 0..(Len(e.xs) - 1) \/ Len(e.idx) # Len(e.xs) THEN {"positions are not a permutation"}
               ELSE IF \A k \in DOMAIN e.idx : REq(e.out[k], Wrap(e.xs[e.idx[k] + 1], e.start, e.span)) THEN {} ELSE {"positions do not follow the values"})
================================================================================
