------------------------------ MODULE MC_Spacetime ------------------------------
(* Short series with gaps, tapers, latitudes of both orders, wave regions on small grids, longitudes of both kinds.    *)
EXTENDS Spacetime, Json
CONSTANT L
VARIABLE v
SmoothInit == \E n \in 1..L : \E q \in [1..n -> {"0", "4", "-8", "none"}] : v = [op |-> "smooth", q |-> q]
WindowInit == \E n \in 2..12, p \in {"0.1", "0.2", "0.5", "1"} : v = [op |-> "window", n |-> n, pct |-> p]
Lats == {<<"-1", "1">>, <<"1", "-1">>, <<"-2", "0", "2">>, <<"2", "0", "-2">>, <<"-3", "-1", "1", "3">>, <<"4", "2", "0", "-2", "-4">>}
PartInit == \E lat \in Lats, s \in BOOLEAN : v = [op |-> "part", lat |-> lat, sym |-> s]
MaskInit == \E nf \in 5..6, nk \in 5..6, w \in Names \union {"MJO"}, kk \in {<<-2, 1>>, <<1, 2>>, <<0, 0>>, <<-2, -1>>, <<2, 2>>, <<-1, 0>>}, h \in {<<"8", "90">>, <<"none", "none">>, <<"25", "none">>, <<"none", "25">>}, tt \in {<<"2.1", "9">>, <<"1.3", "3.1">>} :
   v = [op |-> "mask", nf |-> nf, nk |-> nk, perday |-> 1, tmin |-> tt[1], tmax |-> tt[2], kmin |-> kk[1], kmax |-> kk[2], hmin |-> h[1], hmax |-> h[2], wave |-> w]
FlipInit == \E lon \in {<<"-180", "-90", "0", "90">>, <<"0", "90", "180", "270">>, <<"-30", "10", "20">>, <<"-100", "-50", "-10">>, <<"10", "20">>, <<"100", "190", "200", "350">>, <<"200", "300">>, <<"-60", "0", "60", "120", "179">>} : v = [op |-> "flip", lon |-> lon]
Init == SmoothInit \/ WindowInit \/ PartInit \/ MaskInit \/ FlipInit
Next == FALSE /\ UNCHANGED v
Near9(a, b) == RNear(a, b, "0.000000000001", "0")
Keep(q) == SelectSeq(q, LAMBDA x : x # "none" /\ x # "undef")
(* smoothing keeps the sum, what is missing and the bounds *)
SmoothLaws == v.op = "smooth" => LET s == Smooth(v.q) IN
   /\ \A k \in DOMAIN v.q : (s[k] = "undef") <=> (v.q[k] = "none")
   /\ REq(RSum(Keep(s)), RSum(Keep(v.q)))
   /\ \A k \in DOMAIN s : s[k] = "undef" \/ (RLeq("-8", s[k]) /\ RLeq(s[k], "4"))
WindowLaws == v.op = "window" => LET w == Window(v.n, v.pct) IN \A k \in 1..v.n : Near9(w[k], w[v.n + 1 - k]) /\ RLeq("0", w[k]) /\ RLeq(w[k], "1")
(* both parts give the field back in the north; with the other sign in the south *)
Field(lat) == [k \in DOMAIN lat |-> <<Str(k * k), Str(7 - k)>>]
PartLaws == v.op = "part" => LET x == Field(v.lat)  s == Part(x, v.lat, TRUE)  a == Part(x, v.lat, FALSE)  rs == Rows(v.lat, TRUE)  ra == Rows(v.lat, FALSE) IN
   \A i \in DOMAIN ra : \E j \in DOMAIN rs : rs[j] = ra[i] /\ \A p \in 1..2 : REq(RAdd(s[j][p], a[i][p]), x[ra[i]][p]) /\ REq(RSub(s[j][p], a[i][p]), x[Opposite(v.lat, ra[i])][p])
(* closing an open depth keeps fewer coefficients; an eastward wave has nothing westward but the mean of time *)
MaskLaws == v.op = "mask" => LET r == Region(v) IN
   /\ r \subseteq Region([v EXCEPT !.hmin = "none"]) /\ r \subseteq Region([v EXCEPT !.hmax = "none"])
   /\ Region([v EXCEPT !.wave = "all"]) = Region([v EXCEPT !.hmin = "none", !.hmax = "none"])
   /\ (v.wave = "KELVIN" /\ v.hmax # "none") => \A p \in r : Wavenumber(p[2], v.nk) >= 0 \/ p[1] = 0
   /\ \A p \in r : \E w \in {p[2], p[2] - v.nk} : v.kmin <= w /\ w <= v.kmax
(* every longitude has one name in each convention; going there and back is the identity when both occur *)
FlipLaws == v.op = "flip" => LET f == Flip(v.lon) IN \A k \in DOMAIN f : RIsInt(RDiv(RSub(f[k], v.lon[k]), "360"))
   /\ (((\E j \in DOMAIN v.lon : RLt(v.lon[j], "0")) \/ (\E j \in DOMAIN v.lon : RGeq(v.lon[j], "180"))) => Flip(f)[k] = v.lon[k])
Emit == PrintT("CASE" \o ToJson(v))
================================================================================
