-------------------------------- MODULE Helpers ---------------------------------
(* Enumeration of value combinations, and the small helpers on values.                                          *)
EXTENDS Conf, Sequences

(* ---------------------------------------------------------------- combinations                                *)
(* the last list varies fastest; an empty list leaves no combination *)
RECURSIVE Product(_)
Product(ls) ==
  IF ls = <<>> THEN << <<>> >>
  ELSE LET rest == Product(Tail(ls))
           n == Len(rest)
       IN [k \in 1..(Len(Head(ls)) * n) |-> <<Head(ls)[((k - 1) \div n) + 1]>> \o rest[((k - 1) % n) + 1]]
NonEmpty(ls) == SelectSeq(ls, LAMBDA l : l # <<>>)
(* the first list varies fastest; empty lists are ignored; values of a single list stand alone *)
RECURSIVE ProductFirst(_)
ProductFirst(ls) ==
  IF Len(ls) = 1 THEN [k \in DOMAIN ls[1] |-> <<ls[1][k]>>]
  ELSE LET rest == ProductFirst(Tail(ls))
           n == Len(Head(ls))
       IN [k \in 1..(n * Len(rest)) |-> <<Head(ls)[((k - 1) % n) + 1]>> \o rest[((k - 1) \div n) + 1]]
Combos(ls) == LET m == NonEmpty(ls) IN IF m = <<>> THEN <<>> ELSE ProductFirst(m)

(* ---------------------------------------------------------------- texts                                       *)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
AllDigits(cs) == cs # <<>> /\ \A k \in DOMAIN cs : cs[k] \in Digits
IsInteger(s) == LET cs == SChars(s) IN
  cs # <<>> /\ AllDigits(IF cs[1] \in {"-", "+"} THEN Tail(cs) ELSE cs)
(* digits with exactly one point, at most one leading minus *)
IsFloat(s) == LET c0 == SChars(s)
                  cs == IF c0 # <<>> /\ c0[1] = "-" THEN Tail(c0) ELSE c0
              IN Cardinality({k \in DOMAIN cs : cs[k] = "."}) = 1 /\ AllDigits(SelectSeq(cs, LAMBDA c : c # "."))
Ops == {"DIFF", "RATIO", "SS", "DIFF_SIG", "SINGLE", "ETB"}
Starts(s, p) == LET a == SChars(s) b == SChars(p) IN Len(a) >= Len(b) /\ SubSeq(a, 1, Len(b)) = b
IsDerived(point) == \E k \in DOMAIN point : \E op \in Ops : Starts(point[k], op \o "(") \/ Starts(point[k], op \o " (")

(* ---------------------------------------------------------------- columns                                     *)
(* rows of a table as records; missing values "none" *)
Column(rows, c) == [k \in DOMAIN rows |-> rows[k][c]]
Present(x) == SelectSeq(x, LAMBDA a : RDefined(a))
ColumnSum(rows, cols, c, drop) ==
  IF c \notin {cols[k] : k \in DOMAIN cols} THEN "undef"
  ELSE LET x == Column(rows, c) p == Present(x) IN
       IF p = <<>> THEN "undef" ELSE IF drop \/ Len(p) = Len(x) THEN RSum(p) ELSE "undef"
Matches(row, filter) == \A c \in DOMAIN filter : IF RDefined(filter[c]) THEN REq(row[c], filter[c]) ELSE row[c] = filter[c]
RowsWith(rows, cols, filter) ==
  IF \E c \in DOMAIN filter : c \notin {cols[k] : k \in DOMAIN cols} THEN 0
  ELSE Cardinality({k \in DOMAIN rows : Matches(rows[k], filter)})

(* rounding on the binary value: near a tie the product may fall on either side *)
RoundOk(o, x, d) ==
  LET m == IF d >= 0 THEN RPow("10", d) ELSE RDiv("1", RPow("10", 0 - d))
      t == RMul(x, m)
      exact == RDiv(RFloor(RAdd(t, "1/2")), m)
      tie == RSub(RAdd(t, "1/2"), RFloor(RAdd(t, "1/2")))
      close == RLt(tie, "0.00000001") \/ RGt(tie, "0.99999999")
      near(v) == RNear(o, v, "0", "0.00000000000001")
  IN RDefined(o) /\ (near(exact) \/ (close /\ ~REq(tie, "0") /\ (near(RAdd(exact, RDiv("1", m))) \/ near(RSub(exact, RDiv("1", m))))))

SetOf(s) == {s[k] : k \in DOMAIN s}
Diff(o, w) == IF o = w THEN {} ELSE {"got " \o ToString(o) \o " expected " \o ToString(w)}
HelpVerdict(e) ==
  IF e.err # "" THEN {"failed " \o e.err} ELSE
  CASE e.op = "product" -> Diff(e.out, Product(e.lists))
    [] e.op = "combos" -> LET m == NonEmpty(SubSeq(e.lists, e.from + 1, Len(e.lists))) IN
         Diff(e.out, Combos(m)) \cup (IF Len(m) < 2 \/ ~e.flat THEN {} ELSE {"flat"}) \cup (IF Len(m) = 1 /\ ~e.flat THEN {"nested"} ELSE {})
    [] e.op = "int" -> Diff(e.out, IF e.kind = "str" THEN IsInteger(e.text) ELSE e.kind = "int")
    [] e.op = "float" -> Diff(e.out, e.kind = "str" /\ IsFloat(e.text))
    [] e.op = "derived" -> Diff(e.out, IsDerived(e.point))
    [] e.op = "bool" -> Diff(e.out, CASE e.text = "str:True" -> "bool:True" [] e.text = "str:False" -> "bool:False" [] OTHER -> e.text)
    [] e.op = "intersection" -> IF e.none THEN Diff(e.out, <<"none">>) ELSE Diff(e.out, SelectSeq(e.a, LAMBDA x : x \in SetOf(e.b)))
    [] e.op = "unique" -> IF e.a = <<>> THEN Diff(e.out, <<"none">>)
                          ELSE Diff(SetOf(e.out), SetOf(e.a)) \cup (IF Len(e.out) = Cardinality(SetOf(e.out)) THEN {} ELSE {"repeated values"})
    [] e.op = "sum" -> LET v == ColumnSum(e.rows, e.cols, e.column, e.drop) IN IF AgreeTol(e.out, v, "0.000000001", "0.000000000001") THEN {} ELSE {Say("sum", e.out, v)}
    [] e.op = "rows" -> Diff(e.out, RowsWith(e.rows, e.cols, e.filter))
    [] OTHER -> IF e.x = "none" THEN Diff(e.out, "none") ELSE IF RoundOk(e.out, e.x, e.d) THEN {} ELSE {"rounded " \o e.x \o " to " \o ToString(e.d) \o " got " \o e.out}
================================================================================
