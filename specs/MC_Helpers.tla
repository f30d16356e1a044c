------------------------------- MODULE MC_Helpers -------------------------------
EXTENDS Helpers, Json
CONSTANTS N, L
VARIABLE v
Atoms == {<<>>, <<"a">>, <<"b", "c">>, <<"d", "e", "f">>, <<"g", "a">>}
Alphabet == {"1", "0", "-", ".", "+", "x"}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {""} ELSE Texts(n - 1) \cup {c \o t : c \in Alphabet, t \in Texts(n - 1)}
ListInit == \E n \in 0..N : \E ls \in [1..n -> Atoms] : v = [op |-> "lists", lists |-> ls, text |-> ""]
TextInit == \E t \in Texts(L) : v = [op |-> "text", lists |-> <<>>, text |-> t]
Init == ListInit \/ TextInit
Next == FALSE /\ UNCHANGED v
RECURSIVE Size(_)
Size(ls) == IF ls = <<>> THEN 1 ELSE Len(Head(ls)) * Size(Tail(ls))
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
InOrder(s, ls) == \A k \in DOMAIN s : \A i \in DOMAIN ls : \E j \in DOMAIN ls[i] : s[k][i] = ls[i][j]
(* complete, unique, and one entry per combination *)
Complete == /\ Len(Product(v.lists)) = Size(v.lists) /\ Distinct(Product(v.lists)) /\ InOrder(Product(v.lists), v.lists)
            /\ LET m == NonEmpty(v.lists) IN m # <<>> => Len(Combos(v.lists)) = Size(m) /\ Distinct(Combos(v.lists)) /\ InOrder(Combos(v.lists), m)
SameSet == (v.lists # <<>> /\ \A k \in DOMAIN v.lists : v.lists[k] # <<>>) => SetOf(Product(v.lists)) = SetOf(Combos(v.lists))
(* a text is an integer, a float, or neither; integers and floats denote numbers *)
Kinds == v.op = "text" => ~(IsInteger(v.text) /\ IsFloat(v.text))
Signed == (v.op = "text" /\ v.text # "" /\ SChars(v.text)[1] \notin {"-", "+"}) => (IsInteger("-" \o v.text) = IsInteger(v.text)) /\ (IsFloat("-" \o v.text) = IsFloat(v.text))
Emit == PrintT("CASE" \o ToJson(v))
================================================================================
