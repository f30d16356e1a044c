------------------------------- MODULE MC_EqRef ---------------------------------
(* Equalizing against cases: every subset of six (model, case) rows, with one row doubled or not, and every subset of the reference *)
(* cases, one of which is not in the table.  Laws: idempotent, monotone in the list, the empty list keeps nothing.                   *)
EXTENDS Equalize, Json
VARIABLE v
Times == <<"t1", "t1", "t2">>
Leads == <<"0", "12", "0">>
Mk(m, c) == [model |-> m, fcst_valid |-> Times[c], fcst_lead |-> Leads[c]]
Sq(s) == SetToSeq(s)
Refs == {<<"t1", "0">>, <<"t1", "12">>, <<"t2", "0">>, <<"t2", "12">>}
Init == \E cs \in SUBSET ({"A", "B"} \X (1..3)), rs \in SUBSET Refs, twice \in BOOLEAN :
          v = [rows |-> LET s == [k \in DOMAIN Sq(cs) |-> Mk(Sq(cs)[k][1], Sq(cs)[k][2])] IN IF twice /\ s # <<>> THEN s \o <<s[1]>> ELSE s, cases |-> Sq(rs)]
Next == FALSE /\ UNCHANGED v
R(cs) == AgainstRows(v.rows, cs)
Idempotent == AgainstRows(R(v.cases), v.cases) = R(v.cases)
Monotone == \A c \in Refs : Len(R(v.cases)) <= Len(R(Append(v.cases, c)))
Nothing == R(<<>>) = <<>>
Everything == R(Sq(Refs)) = v.rows
Emit == PrintT("CASE" \o ToJson(v))
================================================================================
