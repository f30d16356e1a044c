-------------------------------- MODULE Blocking --------------------------------
(* Atmospheric blocking on a one-degree circle of longitudes: the latitude of maximum variability, the longitudes *)
(* blocked at an instant, the groups they form, and the blocks that persist.  A run is a circular interval of      *)
(* longitudes: its first longitude s and its length n.                                                            *)
EXTENDS Conf, Integers, Sequences, FiniteSets
N == 360
Lons(r) == {(r.s + k) % N : k \in 0..(r.n - 1)}
Last(r) == (r.s + r.n - 1) % N
(* degrees eastwards from x to y, a full circle when they are the same *)
East(x, y) == LET d == (y - x + N) % N IN IF d = 0 THEN N ELSE d
Turn(r, k) == [r EXCEPT !.s = (@ + k + N) % N]

(* ------------------------------------------------------------ groups of blocked longitudes                    *)
(* blocked longitudes are runs in circular order; two neighbours belong together when their distance is at most d *)
Nxt(rs, k) == IF k = Len(rs) THEN 1 ELSE k + 1
Joined(rs, k, d) == East(Last(rs[k]), rs[Nxt(rs, k)].s) <= d
RECURSIVE Extent(_, _, _)
Extent(rs, k, d) == IF Joined(rs, k, d) THEN East(rs[k].s, rs[Nxt(rs, k)].s) + Extent(rs, Nxt(rs, k), d) ELSE rs[k].n
Prev(rs, k) == IF k = 1 THEN Len(rs) ELSE k - 1
Groups(rs, d, crit) ==
  IF rs = <<>> THEN {}
  ELSE IF \A k \in DOMAIN rs : Joined(rs, k, d) THEN {[s |-> 0, n |-> N]}
  ELSE {g \in {[s |-> rs[k].s, n |-> Extent(rs, k, d)] : k \in {j \in DOMAIN rs : ~Joined(rs, Prev(rs, j), d)}} : g.n >= crit}

(* ------------------------------------------------------------ persistent blocks                               *)
(* groups of one season: a sequence of [day, s, n] ordered by day and, within a day, by their last longitude      *)
Overlap(g, h) == Cardinality(Lons(g) \cap Lons(h))
Centre(g) == (g.s + (g.n - 1) \div 2) % N
Away(g, h) == LET d == East(Centre(g), Centre(h)) IN IF d = N THEN 0 ELSE IF d > N - d THEN N - d ELSE d
Follows(gs, a, b, over) == gs[b].day - gs[a].day \in 1..2 /\ Overlap(gs[a], gs[b]) > over
(* from the last member a, the later unused groups are taken one after another as they follow *)
RECURSIVE Chain(_, _, _, _, _)
Chain(gs, used, a, b, over) ==
  IF b > Len(gs) THEN <<>>
  ELSE IF b \notin used /\ Follows(gs, a, b, over) THEN <<b>> \o Chain(gs, used, b, b + 1, over)
  ELSE Chain(gs, used, a, b + 1, over)
RECURSIVE Tracks(_, _, _)
Tracks(gs, used, over) ==
  LET free == {k \in DOMAIN gs : k \notin used} IN
  IF free = {} THEN <<>>
  ELSE LET a == CHOOSE k \in free : \A j \in free : k <= j
           c == <<a>> \o Chain(gs, used, a, a + 1, over)
       IN <<c>> \o Tracks(gs, used \union {c[k] : k \in DOMAIN c}, over)
(* a block ends before its centre has travelled too far *)
Kept(gs, c, travel) ==
  LET far == {k \in DOMAIN c : Away(gs[c[1]], gs[c[k]]) > travel}
  IN IF far = {} THEN c ELSE SubSeq(c, 1, (CHOOSE k \in far : \A j \in far : k <= j) - 1)
Blocks(gs, over, time, travel) ==
  LET ts == Tracks(gs, {}, over) IN
  UNION {LET c == Kept(gs, ts[k], travel) IN IF Len(ts[k]) >= time /\ Len(c) >= time THEN {gs[c[j]] : j \in DOMAIN c} ELSE {} : k \in DOMAIN ts}

(* ------------------------------------------------------------ verdicts                                        *)
Runs(q) == {[s |-> q[k].s, n |-> q[k].n] : k \in DOMAIN q}
GroupVerdict(e) ==
  IF e.err # "" THEN {"groups failed " \o e.err}
  ELSE UNION {LET want == Groups(e.days[d], e.dist, e.crit) IN
              IF Runs(e.out[d]) = want /\ Len(e.out[d]) = Cardinality(want) THEN {} ELSE {"groups of day " \o ToString(d) \o " are " \o ToString(Runs(e.out[d])) \o " expected " \o ToString(want)}
              : d \in DOMAIN e.days}
Of(gs) == {[day |-> gs[k].day, s |-> gs[k].s, n |-> gs[k].n] : k \in DOMAIN gs}
BlockVerdict(e) ==
  IF e.err # "" THEN {"blocks failed " \o e.err}
  ELSE UNION {LET want == Blocks(e.seasons[y], e.overlap, 5, e.travel)  got == e.out[y] IN
              {"blocks of season " \o ToString(y) \o ": " \o ToString(b) \o " is missing" : b \in want \ Of(got)}
              \union {"blocks of season " \o ToString(y) \o ": " \o ToString(b) \o " is not persistent" : b \in Of(got) \ want}
              \union {"blocks count " \o got[k].v : k \in {j \in DOMAIN got : got[j].v # "1"}}
              : y \in DOMAIN e.seasons}

(* height profile of one longitude on whole latitudes from the pole southwards; cbl is the season-mean latitude   *)
MeanOf(col, a, b) == RMean([k \in 1..(b - a + 1) |-> col[a + k]])     \* rows a..b counted from zero
Index(col, cbl, l, half) == LET d == RToInt(RFloor(RSub("90", cbl))) - l IN RSub(MeanOf(col, d - half, d), MeanOf(col, d, d + half))
RECURSIVE Largest(_)
Largest(q) == IF Len(q) = 1 THEN q[1] ELSE RMax(q[1], Largest(Tail(q)))
InstantVerdict(e) ==
  IF e.err # "" THEN {"instant failed " \o e.err}
  ELSE LET b == Largest([k \in DOMAIN e.deltas |-> Index(e.col, e.cbl, e.deltas[k], e.half)])     \* undefined when a height is missing
           flat == \A k \in DOMAIN e.col : e.col[k] = e.col[1]
           near == ~flat /\ RLeq(RAbs(b), "0.000000001")
       IN IF near \/ REq(e.out, IF RGt(b, "0") THEN "1" ELSE "0") THEN {} ELSE {"instant blocked " \o e.out \o " but the index is " \o b}

(* variability: root of the latitude's cosine times the standard deviation over the days of a season that are there *)
There(q) == SelectSeq(q, LAMBDA x : x # "none")
Weighted(vals, lat) == RMul(RSqrt(RVarP(There(vals))), RSqrt(RCosDeg(lat)))
VarVerdict(e) == IF e.err # "" THEN {"variability failed " \o e.err}
  ELSE IF AgreeTol(e.out, Weighted(e.vals, e.lat), "0.000001", "0.000001") THEN {} ELSE {"variability " \o Say("at " \o e.lat, e.out, Weighted(e.vals, e.lat))}
(* the central latitude (where nothing is known nothing varies): mean over a circular window of the latitudes of largest variability, whole degrees *)
Val(x) == IF RDefined(x) THEN x ELSE "0"
ArgMax(p) == LET q == [k \in DOMAIN p |-> Val(p[k])] IN CHOOSE k \in DOMAIN q : (\A j \in DOMAIN q : RLeq(q[j], q[k])) /\ (\A j \in 1..(k - 1) : RLt(q[j], q[k]))
CentralVerdict(e) == IF e.err # "" THEN {"central failed " \o e.err}
  ELSE LET v == RFloor(RMean([k \in DOMAIN e.window |-> e.lats[ArgMax(e.window[k])]]))
       IN IF REq(e.out, v) THEN {} ELSE {"central latitude " \o Say("at " \o e.lon, e.out, v)}

BlockingVerdict(e) == CASE e.op = "groups" -> GroupVerdict(e) [] e.op = "blocks" -> BlockVerdict(e) [] e.op = "instant" -> InstantVerdict(e)
                        [] e.op = "variability" -> VarVerdict(e) [] OTHER -> CentralVerdict(e)
================================================================================
