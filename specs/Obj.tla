----------------------------------- MODULE Obj ----------------------------------
(* Ratio statistics of spatial objects.  An object is a record [fcst, simple, matched : 0..1, area, volume,     *)
(* type].  A three-letter code <<s, c, m>> selects by source (f/o/a), kind (s simple, c cluster, a any) and     *)
(* matching (m/u/a).                                                                                            *)
EXTENDS Conf

Sel(o, c) == /\ (c[1] = "f" => o.fcst = 1)   /\ (c[1] = "o" => o.fcst = 0)
             /\ (c[2] = "s" => o.simple = 1) /\ (c[2] = "c" => o.simple = 0)
             /\ (c[3] = "m" => o.matched = 1) /\ (c[3] = "u" => o.matched = 0)
Weight(o, by) == CASE by = "count" -> "1" [] by = "area" -> o.area [] by = "volume" -> o.volume
OfType(objs, dim) == IF dim = "any" THEN objs ELSE SelectSeq(objs, LAMBDA o : o.type = dim)
Tot(objs, c, by) == RSum([k \in DOMAIN objs |-> IF Sel(objs[k], c) THEN Weight(objs[k], by) ELSE "0"])

Asm == <<"a", "s", "m">>  Osu == <<"o", "s", "u">>  Fsu == <<"f", "s", "u">>
Hits(os, by) == RDiv(Tot(os, Asm, by), 2)                       \* a matched pair is two objects
Misses(os, by) == Tot(os, Osu, by)
Fas(os, by) == Tot(os, Fsu, by)

(* q = [kind, by, dim, num, den] *)
ExpObj(q, all) ==
  LET os == OfType(all, q.dim)  h == Hits(os, q.by)  m == Misses(os, q.by)  f == Fas(os, q.by)
  IN CASE q.kind = "ratio" -> RDiv(Tot(os, q.num, q.by), Tot(os, q.den, q.by))
       [] q.kind = "hits" -> h   [] q.kind = "misses" -> m   [] q.kind = "fas" -> f
       [] q.kind = "csi" -> RDiv(h, RSum3(h, m, f))
       [] q.kind = "pody" -> RDiv(h, RAdd(h, m))
       [] q.kind = "far" -> RDiv(f, RAdd(h, f))

ObjVerdict(e) == {Say(e.stats[k].name, e.out[k], ExpObj(e.stats[k], e.objs)) : k \in {j \in DOMAIN e.out : ~Agree7(e.out[j], ExpObj(e.stats[j], e.objs))}}
================================================================================
