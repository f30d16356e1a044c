-------------------------------- MODULE Images ----------------------------------
(* Comparison of two images of equal size: similarity, and products made on request.                            *)
EXTENDS Conf, Sequences, FiniteSets
Products == {"difference", "threshold", "marked1", "marked2"}
(* pixels <<blue, green, red>>; brightness of a pixel *)
Grey(p) == (3735 * p[1] + 19235 * p[2] + 9798 * p[3] + 16384) \div 32768
SameGrey(a, b) == \A k \in DOMAIN a : Grey(a[k]) = Grey(b[k])
Red == <<0, 0, 255>>
(* a marked image is the image with red lines drawn over it *)
MarkedOk(m, a) == Len(m) = Len(a) /\ \A k \in DOMAIN a : m[k] = a[k] \/ m[k] = Red
(* Structural similarity of two grey images (sequences of rows laid end to end, w columns): over the 7 by 7 windows inside the
   image, from means, variances and covariance with the usual stabilising constants; the similarity of the images is the mean *)
Window(y, x, w) == {(y + d[1]) * w + x + d[2] + 1 : d \in (0 .. 6) \X (0 .. 6)}
SumOver(f, S) == LET RECURSIVE Go(_, _)
                     Go(T, t) == IF T = {} THEN t ELSE LET k == CHOOSE z \in T : TRUE IN Go(T \ {k}, t + f[k]) IN Go(S, 0)
C1 == "6.5025"
C2 == "58.5225"
Similar(sa, sb, saa, sbb, sab) ==
  LET ua == RDiv(ToString(sa), "49")   ub == RDiv(ToString(sb), "49")
      va == RMul("49/48", RSub(RDiv(ToString(saa), "49"), RMul(ua, ua)))
      vb == RMul("49/48", RSub(RDiv(ToString(sbb), "49"), RMul(ub, ub)))
      vab == RMul("49/48", RSub(RDiv(ToString(sab), "49"), RMul(ua, ub))) IN
  RDiv(RMul(RAdd(RProd3("2", ua, ub), C1), RAdd(RMul("2", vab), C2)),
       RMul(RAdd(RAdd(RMul(ua, ua), RMul(ub, ub)), C1), RAdd(RAdd(va, vb), C2)))
Similarity(a, b, h, w) ==
  LET ga == [k \in DOMAIN a |-> Grey(a[k])]
      gb == [k \in DOMAIN b |-> Grey(b[k])]
      aa == [k \in DOMAIN a |-> ga[k] * ga[k]]
      bb == [k \in DOMAIN b |-> gb[k] * gb[k]]
      ab == [k \in DOMAIN a |-> ga[k] * gb[k]]
      n == (h - 6) * (w - 6)
      at(k) == LET W == Window((k - 1) \div (w - 6), (k - 1) % (w - 6), w) IN
               Similar(SumOver(ga, W), SumOver(gb, W), SumOver(aa, W), SumOver(bb, W), SumOver(ab, W)) IN
  RMean([k \in 1 .. n |-> at(k)])

(* Marks: a rectangle around each outermost patch of the threshold image *)
Cells(h, w) == (0 .. h - 1) \X (0 .. w - 1)
Lit(t, h, w) == {c \in Cells(h, w) : t[c[1] * w + c[2] + 1] = 255}
Close(c, d) == c[1] - d[1] \in -1 .. 1 /\ c[2] - d[2] \in -1 .. 1
Around(c) == {<<c[1] + d[1], c[2] + d[2]>> : d \in (-1 .. 1) \X (-1 .. 1)}
Patch(L, c) == LET RECURSIVE Grow(_, _)
                   Grow(S, new) == LET more == ((UNION {Around(d) : d \in new}) \cap L) \ S IN IF more = {} THEN S ELSE Grow(S \cup more, more) IN Grow({c}, {c})
Patches(L) == LET RECURSIVE Go(_, _)
                  Go(T, P) == IF T = {} THEN P ELSE LET q == Patch(L, CHOOSE c \in T : TRUE) IN Go(T \ q, P \cup {q}) IN Go(L, {})
Least(S) == CHOOSE v \in S : \A u \in S : v <= u
Most(S) == CHOOSE v \in S : \A u \in S : v >= u
(* <<top, left, bottom, right>>; the lower right corner is one past the patch *)
Box(P) == <<Least({c[1] : c \in P}), Least({c[2] : c \in P}), Most({c[1] : c \in P}) + 1, Most({c[2] : c \in P}) + 1>>
Inside(b, c) == c[1] <= b[1] /\ c[2] <= b[2] /\ b[3] <= c[3] /\ b[4] <= c[4]
Outline(b, h, w) == {c \in Cells(h, w) : \/ c[1] \in {b[1], b[3]} /\ b[2] <= c[2] /\ c[2] <= b[4]
                                         \/ c[2] \in {b[2], b[4]} /\ b[1] <= c[1] /\ c[1] <= b[3]}
MarksVerdict(e, m, a) ==
  LET boxes == {Box(P) : P \in Patches(Lit(e.threshold, e.h, e.w))}
      outer == {b \in boxes : \A c \in boxes : Inside(b, c) => b = c}
      px(c) == c[1] * e.w + c[2] + 1
      must == UNION {Outline(b, e.h, e.w) : b \in outer}
      may == UNION {Around(c) : c \in UNION {Outline(b, e.h + 1, e.w + 1) : b \in boxes}} IN
  (IF \A c \in must : m[px(c)] = Red THEN {} ELSE {"unmarked difference"})
  \cup (IF \A c \in Cells(e.h, e.w) \ may : m[px(c)] = a[px(c)] THEN {} ELSE {"marked where nothing differs"})
PairVerdict(e) ==
  IF e.err # "" THEN {"failed " \o e.err} ELSE
  LET same == SameGrey(e.a, e.b) IN
  (IF same = REq(e.similarity, "1") THEN {} ELSE {"similarity " \o e.similarity \o " of images that " \o (IF same THEN "agree" ELSE "differ")})
  \cup (IF RDefined(e.similarity) /\ RLeq(e.similarity, "1") THEN {} ELSE {"similarity is " \o e.similarity})
  \cup (IF same /\ \E k \in DOMAIN e.difference : e.difference[k] # 255 THEN {"difference image of images that agree"} ELSE {})
  \cup (IF Len(e.difference) # Len(e.a) \/ Len(e.threshold) # Len(e.a) THEN {"size"} ELSE {})
  \cup (IF \A k \in DOMAIN e.threshold : e.threshold[k] \in {0, 255} THEN {} ELSE {"threshold image is not binary"})
  \cup (IF \A k, l \in DOMAIN e.threshold : e.threshold[k] = 255 /\ e.difference[l] <= e.difference[k] => e.threshold[l] = 255
        THEN {} ELSE {"threshold image does not follow the difference"})
  \cup (IF (same => \A k \in DOMAIN e.threshold : e.threshold[k] = 0)
           /\ ((\E k \in DOMAIN e.difference : e.difference[k] # e.difference[1]) => \E k \in DOMAIN e.threshold : e.threshold[k] = 255)
        THEN {} ELSE {"threshold image of images that " \o (IF same THEN "agree" ELSE "differ")})
  \cup (IF AgreeTol(e.similarity, Similarity(e.a, e.b, e.h, e.w), "0.0000001", "0") THEN {} ELSE {"similarity value"})
  \cup MarksVerdict(e, e.marked1, e.a) \cup MarksVerdict(e, e.marked2, e.b)
  \cup (IF MarkedOk(e.marked1, e.a) THEN {} ELSE {"marked1 image"}) \cup (IF MarkedOk(e.marked2, e.b) THEN {} ELSE {"marked2 image"})
(* every request of a history gives what a first request gives *)
HistVerdict(e) == UNION {LET s == e.steps[k] IN
  IF s.err # "" THEN {"failed " \o s.do \o " " \o s.product \o " " \o s.err}
  ELSE IF s.waits # s.wait THEN {"waits for a key " \o s.product}
  ELSE IF s.content = e.first[s.product] THEN {} ELSE {"content " \o s.product \o " changed on request " \o ToString(k)} : k \in DOMAIN e.steps}
ImageVerdict(e) == CASE e.op = "pair" -> PairVerdict(e) [] e.op = "history" -> HistVerdict(e)
                     [] OTHER -> IF e.err = "exc:KeyError" THEN {} ELSE {"accepted " \o e.why \o " " \o e.err}
================================================================================
