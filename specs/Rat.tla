---------------------------------- MODULE Rat ----------------------------------
(* Exact rationals for TLC.  A rational is a string: "n" or "n/d" in lowest terms with d > 0; decimal notation *)
(* is accepted on input ("0.25", "1E-7").  "undef" (and any other non-number) is the undefined value; all       *)
(* operators are strict in it, division by zero and roots or logarithms outside their domain yield it.          *)
(*                                                                                                              *)
(* TLC evaluates these operators by java/Rat.java (BigInteger); the bodies below are place holders that fail    *)
(* when the override is missing.  MC_Rat.tla checks the overrides against definitions on integer pairs.         *)
EXTENDS Integers, Sequences, TLC

Undef == "undef"

LOCAL No == Assert(FALSE, "Rat: Java override not on the class path")

RNorm(a) == No            \* canonical form
RDefined(a) == No         \* a denotes a number
RAdd(a, b) == No
RSub(a, b) == No
RMul(a, b) == No
RDiv(a, b) == No          \* undefined for b = 0
RNeg(a) == No
RAbs(a) == No
RSgn(a) == No             \* "-1", "0", "1"
RMin(a, b) == No
RMax(a, b) == No
RLt(a, b) == No           \* comparisons are FALSE when a side is undefined
RLeq(a, b) == No
REq(a, b) == No
RFloor(a) == No
RToInt(a) == No           \* TLC integer; an error when not a small integer
RIsInt(a) == No
RPow(a, k) == No          \* k a TLC integer
RHalfUp(a, k) == No       \* Floor(a * 10^k + 1/2) / 10^k
RSum(s) == No             \* of a sequence
RDot(s, t) == No          \* sum of products
RSort(s) == No            \* defined entries of a sequence, ascending
RNear(a, b, abs, rel) == No   \* |a - b| <= abs + rel * Max(|a|, |b|)

RSqrt(a) == No            \* exact for squares, else 50 digits; undefined for a < 0
RLn(a) == No              \* undefined for a <= 0
RExp(a) == No
RAtan2Deg(y, x) == No     \* degrees in (-180, 180]; undefined at the origin
RSinDeg(a) == No
RCosDeg(a) == No
RPi == No

RTTwoSided(t, df) == No   \* P(|T| > |t|), Student's t
RTCdf(t, df) == No
RTQuantile(p, df) == No
RNormCdf(z) == No
RLambertW(a) == No        \* principal branch, a >= 0

SChars(s) == No           \* characters of a string
SLess(a, b) == No         \* lexicographic order of strings
SSplit(s, sep) == No

--------------------------------------------------------------------------------
(* derived *)
RGt(a, b) == RLt(b, a)
RGeq(a, b) == RLeq(b, a)
RSq(a) == RMul(a, a)
RSum2(a, b) == RAdd(a, b)
RSum3(a, b, c) == RAdd(RAdd(a, b), c)
RSum4(a, b, c, d) == RAdd(RAdd(a, b), RAdd(c, d))
RProd3(a, b, c) == RMul(RMul(a, b), c)
RNonZero(a) == RDefined(a) /\ ~REq(a, "0")
RMod(a, m) == RSub(a, RMul(m, RFloor(RDiv(a, m))))
RMean(s) == RDiv(RSum(s), Len(s))
(* sum of squared deviations from the mean *)
RSS(s) == LET m == RMean(s) IN RSum([i \in DOMAIN s |-> RSq(RSub(s[i], m))])
RVarS(s) == IF Len(s) < 2 THEN Undef ELSE RDiv(RSS(s), Len(s) - 1)      \* sample variance
RVarP(s) == IF Len(s) < 1 THEN Undef ELSE RDiv(RSS(s), Len(s))          \* population variance
(* linearly interpolated quantile of an ascending sequence, 0 <= p <= 1 *)
RQuantile(s, p) ==
  IF s = <<>> THEN Undef ELSE
  LET h == RMul(p, Len(s) - 1)
      k == RToInt(RFloor(h))
      f == RSub(h, k)
  IN IF k + 2 > Len(s) THEN s[Len(s)]
     ELSE RAdd(s[k + 1], RMul(f, RSub(s[k + 2], s[k + 1])))
================================================================================
