-------------------------------- MODULE Vertical --------------------------------
(* Interpolation of a column to requested levels, and heights of pressure levels.                               *)
(* A column: surfaces z[1] < z[2] < ... (bottom first; "none" for surfaces below the ground), field values f.   *)
EXTENDS Conf, Sequences

(* factor of a unit to the base unit of its kind *)
Unit(u) == CASE u \in {"m", "meter", "metre"} -> "1" [] u \in {"km", "kilometer"} -> "1000" [] u = "ft" -> "0.3048"
             [] u = "cm" -> "0.01" [] u = "Pa" -> "1" [] u \in {"hPa", "mbar", "millibar"} -> "100" [] OTHER -> Undef
In(x, from, to) == RDiv(RMul(x, Unit(from)), Unit(to))

(* eta in the unit of the surfaces *)
Interp(z, f, eta) ==
  LET n == Len(z)
      ks == {k \in 2..n : RLeq(z[k - 1], eta) /\ RLt(eta, z[k])}
  IN IF RLt(eta, z[1]) THEN f[1]
     ELSE IF RGeq(eta, z[n]) THEN f[n]
     ELSE IF ks = {} THEN Undef                                      \* beneath the lowest surface above the ground
     ELSE LET k == CHOOSE j \in ks : TRUE
              w == RDiv(RSub(eta, z[k - 1]), RSub(z[k], z[k - 1]))
          IN IF REq(w, "0") THEN f[k - 1] ELSE RAdd(RMul(w, f[k]), RMul(RSub("1", w), f[k - 1]))

(* hypsometric heights; c = [p (levels, hPa, descending), ps (surface pressure, hPa), zs (surface height, m),   *)
(* t (kelvin), rh (0..1)] *)
Eps == "0.6219569100577033"                                          \* molecular weights of water and dry air
Rd == "287.04749097718457"
G == "9.80665"
Sat(t) == RMul("6.112", RExp(RDiv(RMul("17.67", RSub(t, "273.15")), RSub(t, "29.65"))))
MixSat(p, t) == RDiv(RMul(Eps, Sat(t)), RSub(p, Sat(t)))
Mix(p, t, rh) == RMul(rh, MixSat(p, t))
Virtual(t, w) == RMul(t, RDiv(RAdd(w, Eps), RMul(Eps, RAdd("1", w))))
Rise(c, k, from) == RMul(RMul(RDiv(Rd, G), Virtual(c.t[k], Mix(c.p[k], c.t[k], c.rh[k]))), RLn(RDiv(from, c.p[k])))
RECURSIVE Height(_, _)
Height(c, k) ==
  IF RLt(c.ps, c.p[k]) THEN Undef                                    \* below the ground
  ELSE IF k = 1 \/ RLt(c.ps, c.p[IF k = 1 THEN 1 ELSE k - 1]) THEN RAdd(c.zs, Rise(c, k, c.ps))
  ELSE RAdd(Height(c, k - 1), Rise(c, k, c.p[k - 1]))

(* e.g. missing values appear as nan *)
Ok(o, v, abs, rel) == IF RDefined(v) THEN RDefined(o) /\ RNear(o, v, abs, rel) ELSE o = "nan"
Widest(f) == LET s == RSort([k \in DOMAIN f |-> RAbs(f[k])]) IN IF s = <<>> THEN "0" ELSE s[Len(s)]
VertVerdict(e) ==
  IF e.err # "" THEN {"failed " \o e.err} ELSE
  CASE e.op \in {"interp", "script"} ->
         LET Want(j) == Interp(e.z, e.f, In(e.at[j], e.atunit, e.zunit)) IN
         IF Len(e.out) # Len(e.at) THEN {"levels"} ELSE
         {"level " \o e.at[j] \o Say("", e.out[j], Want(j)) :
             j \in {x \in DOMAIN e.at : ~Ok(e.out[x], Want(x), RMul(e.tol, RAdd("1", Widest(e.f))), e.tol)}}
    [] OTHER ->
         {"height of " \o e.c.p[k] \o Say("", e.out[k], Height(e.c, k)) :
             k \in {x \in DOMAIN e.c.p : ~Ok(e.out[x], Height(e.c, x), "0.001", "0.00001")}}
================================================================================
