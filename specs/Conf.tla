---------------------------------- MODULE Conf ---------------------------------
(* Conformance of an observed number with the value the specification computes.                                 *)
EXTENDS Rat, FiniteSets

Missing == {"none"}                       \* how the implementation reports a missing value
IsExc(o) == SChars(o)[1] = "e"            \* "exc:..."

(* observed o, expected v, tolerance |o - v| <= abs + rel * max *)
AgreeTol(o, v, abs, rel) == IF RDefined(v) THEN RDefined(o) /\ RNear(o, v, abs, rel) ELSE o \in Missing

(* values the implementation rounds half up to seven decimals: half a unit, plus double-precision error *)
Eps7 == "0.0000000501"
Agree7(o, v) == AgreeTol(o, v, Eps7, "0.000000001")
(* a reported value is on the grid of seven decimals *)
OnGrid7(o) == ~RDefined(o) \/ RNear(o, RHalfUp(o, 7), "0.000000000001", "0.0000000000001")
AgreeExact(o, v) == AgreeTol(o, v, "0", "0.000000000001")

Say(name, o, v) == name \o " got " \o o \o " expected " \o (IF RDefined(v) THEN RHalfUp(v, 10) ELSE "missing")
================================================================================
