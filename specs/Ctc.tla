----------------------------------- MODULE Ctc ----------------------------------
(* Categorical scores of pooled contingency tables.                                                             *)
(* A table is a record [fy_oy, fy_on, fn_oy, fn_on |-> sequence of counts], one entry per line.                 *)
EXTENDS Conf

Pool(t) == [a |-> RSum(t.fy_oy), b |-> RSum(t.fy_on), c |-> RSum(t.fn_oy), d |-> RSum(t.fn_on)]

N(p) == RSum4(p.a, p.b, p.c, p.d)
H(p) == RDiv(p.a, RAdd(p.a, p.c))             \* hit rate
F(p) == RDiv(p.b, RAdd(p.b, p.d))             \* false alarm rate

Baser(p) == RDiv(RAdd(p.a, p.c), N(p))
Acc(p)   == RDiv(RAdd(p.a, p.d), N(p))
Fbias(p) == RDiv(RAdd(p.a, p.b), RAdd(p.a, p.c))
Fmean(p) == RDiv(RAdd(p.a, p.b), N(p))
Podn(p)  == RDiv(p.d, RAdd(p.b, p.d))
Far(p)   == RDiv(p.b, RAdd(p.a, p.b))
Csi(p)   == RDiv(p.a, RSum3(p.a, p.b, p.c))
Gss(p)   == LET r == RDiv(RMul(RAdd(p.a, p.b), RAdd(p.a, p.c)), N(p))
            IN RDiv(RSub(p.a, r), RSub(RSum3(p.a, p.b, p.c), r))
Hk(p)    == RSub(H(p), F(p))
Hss(p)   == LET e == RDiv(RAdd(RMul(RAdd(p.a, p.b), RAdd(p.a, p.c)), RMul(RAdd(p.c, p.d), RAdd(p.b, p.d))), N(p))
            IN RDiv(RSub(RAdd(p.a, p.d), e), RSub(N(p), e))
(* odds ratio; undefined when an observed margin is empty *)
Odds(p)  == LET h == H(p) f == F(p) IN RDiv(RMul(h, RSub(1, f)), RMul(f, RSub(1, h)))
Odds1(p) == LET h == H(p) f == F(p) IN RDiv(RDiv(h, RSub(1, h)), RDiv(f, RSub(1, f)))    \* as a ratio of odds
Lodds(p) == RSub(RAdd(RLn(p.a), RLn(p.d)), RAdd(RLn(p.b), RLn(p.c)))
Orss(p)  == RDiv(RSub(RMul(p.a, p.d), RMul(p.b, p.c)), RAdd(RMul(p.a, p.d), RMul(p.b, p.c)))
Seds(p)  == RSub(RDiv(RAdd(RLn(RDiv(RAdd(p.a, p.b), N(p))), RLn(RDiv(RAdd(p.a, p.c), N(p)))), RLn(RDiv(p.a, N(p)))), 1)
Eds(p)   == RSub(RDiv(RMul(2, RLn(RDiv(RAdd(p.a, p.c), N(p)))), RLn(RDiv(p.a, N(p)))), 1)
Edi(p)   == LET f == RLn(F(p)) h == RLn(H(p)) IN RDiv(RSub(f, h), RAdd(f, h))
SediDen(p) == RSum4(RLn(F(p)), RLn(H(p)), RLn(RSub(1, F(p))), RLn(RSub(1, H(p))))
Sedi(p)  == RDiv(RAdd(RSub(RSub(RLn(F(p)), RLn(H(p))), RLn(RSub(1, F(p)))), RLn(RSub(1, H(p)))), SediDen(p))
(* bias adjusted Gilbert skill score (dH/dF method) *)
Bagss(p) == IF REq(p.a, 0) THEN Undef ELSE
            LET o  == RAdd(p.a, p.c)
                lf == RLn(RDiv(o, p.c))
                w  == RLambertW(RMul(RDiv(o, p.b), lf))
                ha == RSub(o, RMul(RDiv(p.b, lf), w))
                r  == RDiv(RSq(o), N(p))
            IN RDiv(RSub(ha, r), RSub(RSub(RMul(2, o), ha), r))

Score(s, p) ==
  CASE s = "baser" -> Baser(p)  [] s = "acc" -> Acc(p)     [] s = "fbias" -> Fbias(p) [] s = "fmean" -> Fmean(p)
    [] s = "pody" -> H(p)       [] s = "pofd" -> F(p)      [] s = "podn" -> Podn(p)   [] s = "far" -> Far(p)
    [] s = "csi" -> Csi(p)      [] s = "gss" -> Gss(p)     [] s = "hk" -> Hk(p)       [] s = "hss" -> Hss(p)
    [] s = "odds" -> Odds(p)    [] s = "odds1" -> Odds1(p)  [] s = "lodds" -> Lodds(p) [] s = "bagss" -> Bagss(p)
    [] s = "orss" -> Orss(p)    [] s = "sedi" -> Sedi(p)   [] s = "seds" -> Seds(p)   [] s = "edi" -> Edi(p)
    [] s = "eds" -> Eds(p)
    [] s \in {"total", "ctc_total", "cts_total"} -> N(p)
    [] s = "ctc_fy_oy" -> p.a   [] s = "ctc_fy_on" -> p.b  [] s = "ctc_fn_oy" -> p.c  [] s = "ctc_fn_on" -> p.d
    [] s = "ctc_oy" -> RAdd(p.a, p.c) [] s = "ctc_on" -> RAdd(p.b, p.d)
    [] s = "ctc_fy" -> RAdd(p.a, p.b) [] s = "ctc_fn" -> RAdd(p.c, p.d)

(* Scores composed of rates may be computed from rates already rounded to seven decimals; the allowance is that *)
(* rounding propagated through the formula.                                                                     *)
RateErr == "0.00000005"
Inv1(x) == IF REq(x, 0) \/ REq(x, 1) THEN "0" ELSE RAdd(RDiv(1, x), RDiv(1, RSub(1, x)))   \* 0 and 1 round exactly
Tol(s, p) ==
  CASE s = "hk" -> "0.00000016"
    [] s \in {"odds", "odds1"} -> RAdd("0.000001", RProd3("0.00000006", RAbs(Score(s, p)), RAdd(Inv1(H(p)), Inv1(F(p)))))
    [] s \in {"edi", "sedi"} ->
         LET den == IF s = "edi" THEN RAdd(RLn(F(p)), RLn(H(p))) ELSE SediDen(p)
             e == IF s = "edi" THEN RDiv(1, H(p)) ELSE Inv1(H(p))
         IN RAdd("0.0000001", RMul(RProd3("0.00000006", e, RDiv(1, RAbs(den))), RAdd(1, RAbs(Score(s, p)))))
    [] OTHER -> Eps7

(* e.tab: table, e.out: record score -> observed *)
CtcBad(e) ==
  LET p == Pool(e.tab)
  IN {Say(s, e.out[s], Score(s, p)) : s \in {s \in DOMAIN e.out :
        LET v == Score(s, p) IN ~AgreeTol(e.out[s], v, IF RDefined(v) THEN Tol(s, p) ELSE "0", "0.000000001")}}
     \cup {s \o " not rounded " \o e.out[s] : s \in {s \in DOMAIN e.out : ~OnGrid7(e.out[s])}}

(* Multi-category tables: Heidke skill score against a given chance expectation, categories pooled over lines. *)
(* e.ncat, e.ec, e.cells: sequence (one per line) of sequences of n*n counts, row-major                         *)
MctsHss(e) ==
  LET n == e.ncat
      pool == [k \in 1..(n * n) |-> RSum([r \in DOMAIN e.cells |-> e.cells[r][k]])]
      diag == RSum([i \in 1..n |-> pool[(i - 1) * n + i]])
      all == RSum(pool)
  IN RDiv(RSub(diag, RMul(e.ec, all)), RSub(all, RMul(e.ec, all)))
MctsBad(e) == IF Agree7(e.hss, MctsHss(e)) THEN {} ELSE {Say("hss_ec", e.hss, MctsHss(e))}

(* permuted or split lines must give the same answer: e.out, e.alt are observed on two presentations *)
SameBad(e) == {s \o " differs between presentations: " \o e.out[s] \o " vs " \o e.alt[s] :
                 s \in {s \in DOMAIN e.out : e.out[s] # e.alt[s]}}

Verdict(e) == CASE e.op = "ctc" -> CtcBad(e) [] e.op = "mcts" -> MctsBad(e) [] e.op = "same" -> SameBad(e)
================================================================================
