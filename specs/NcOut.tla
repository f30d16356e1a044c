--------------------------------- MODULE NcOut ---------------------------------
(* What a file of gridded results holds, and winds around a storm.                                               *)
EXTENDS Conf

(* ---- winds: components along and across the ray at an azimuth counted from north against the clock ---- *)
Ray(az) == LET a == RAdd(az, "90") IN [c |-> RCosDeg(a), s |-> RSinDeg(a)]
Radial(az, u, v) == LET r == Ray(az) IN RAdd(RMul(r.c, u), RMul(r.s, v))
Tangential(az, u, v) == LET r == Ray(az) IN RSub(RMul(r.c, v), RMul(r.s, u))

(* ---- calendar: days since 1970-01-01 ---- *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE DaysToYear(_)
DaysToYear(y) == IF y = 1970 THEN 0 ELSE DaysToYear(y - 1) + (IF Leap(y - 1) THEN 366 ELSE 365)
RECURSIVE DaysToMonth(_, _)
DaysToMonth(y, m) == IF m = 1 THEN 0 ELSE DaysToMonth(y, m - 1) + MonthLen(y, m - 1)
Day(t) == DaysToYear(t.y) + DaysToMonth(t.y, t.m) + t.d - 1
(* seconds since 1970 as a number (too large for a TLC integer) *)
Seconds(t) == RAdd(RMul("86400", Day(t)), RNorm(3600 * t.h + 60 * t.min))

(* ---- verdict ---- *)
Near5(o, v) == AgreeTol(o, v, "0.00002", "0.00001")
Same(o, v) == IF v = "nan" THEN o = "nan" ELSE REq(o, v)
SameAll(o, v) == Len(o) = Len(v) /\ \A k \in DOMAIN v : Same(o[k], v[k])
Kept == {"uint32", "uint64", "int32", "int64", "float32", "float64"}
File(e) ==
  IF e.err # "" THEN {"file not written " \o e.err}
  ELSE UNION {LET d == e.axes[k] IN
                IF d.name = "time" THEN (IF Len(d.out) = Len(d.stamps) /\ \A j \in DOMAIN d.stamps : REq(d.out[j], RSub(Seconds(d.stamps[j]), Seconds(d.stamps[1]))) THEN {} ELSE {"axis time " \o ToString(d.out)})
                ELSE IF SameAll(d.out, d.val) THEN {} ELSE {"axis " \o d.name \o ToString(d.out)} : k \in DOMAIN e.axes}
       \union UNION {LET f == e.fields[k] IN
                (IF f.outdims = (IF e.valid THEN <<"valid_time">> ELSE <<>>) \o f.dims THEN {} ELSE {"field dimensions " \o ToString(f.outdims)})
                \union (IF SameAll(f.out, f.val) THEN {} ELSE {"field values " \o f.name})
                \union (IF f.type \in Kept /\ f.outtype # f.type THEN {"field type " \o f.outtype} ELSE {})
                \union (IF f.outattrs = f.attrs THEN {} ELSE {"field attributes " \o ToString(f.outattrs)}) : k \in DOMAIN e.fields}
       \union (IF e.outnames = e.names THEN {} ELSE {"variables " \o ToString(e.outnames)})
       \union (IF e.outattrs = e.attrs THEN {} ELSE {"attributes " \o ToString(e.outattrs)})
       \union (IF ~e.valid \/ (e.lead # <<>> /\ REq(e.lead[1], RSub(Seconds(e.validat), Seconds(e.initat))) /\ e.leadfrom = e.initat) THEN {} ELSE {"valid time " \o ToString(e.lead)})
       \union (IF ~e.hasref \/ (e.ref # <<>> /\ REq(e.ref[1], Seconds(e.refat))) THEN {} ELSE {"reference time " \o ToString(e.ref)})

NcOutVerdict(e) ==
  CASE e.op = "winds" ->
         IF e.err # "" THEN {"winds failed " \o e.err}
         ELSE UNION {LET p == e.pts[k] IN
                (IF Near5(p.r, Radial(p.az, p.u, p.v)) THEN {} ELSE {Say("winds radial", p.r, Radial(p.az, p.u, p.v))})
                \union (IF Near5(p.t, Tangential(p.az, p.u, p.v)) THEN {} ELSE {Say("winds tangential", p.t, Tangential(p.az, p.u, p.v))}) : k \in DOMAIN e.pts}
    [] e.op = "storm" ->
         (* the file read: storm axes in the fixed order, each value where its labels say *)
         IF e.err # "" THEN {"storm not read " \o e.err}
         ELSE (IF e.dims = <<"range", "azimuth", "pressure", "track_point">> THEN {} ELSE {"storm order " \o ToString(e.dims)})
              \union (IF e.out = e.val THEN {} ELSE {"storm values"})
    [] e.op = "file" -> File(e)
    [] OTHER -> {"unknown operation"}
================================================================================
