------------------------------ MODULE MC_Validate --------------------------------
(* Runs on a small world: each run removes what the runs before left and leaves what its own differing plots made. *)
EXTENDS Validate, Json
CONSTANT Runs
VARIABLES out, hist
Plots == <<"plot1", "plot10">>
Origs == {"none", "image", "bad"}
News == {"none", "same", "other", "size", "bad"}
(* a plot to compare with is needed for a same or other one *)
States == {s \in [orig : Origs, new : News] : s.orig # "image" => s.new \notin {"same", "size"}}
Conf(k, s, d) == [name |-> Plots[k], ext |-> ".xml", day |-> d, plot |-> Plots[k], pext |-> ".png", orig |-> s.orig, new |-> s.new,
                  extra |-> <<[dir |-> "data", name |-> Plots[k] \o "_py.data"]>>]
Init == out = {} /\ hist = <<>>
(* the second plot may lie outside the period *)
Run(s1, s2, d2) == LET xs == {Conf(1, s1, 0), Conf(2, s2, d2)} IN
  /\ out' = LeftOver(xs, 0, 1)
  /\ hist' = Append(hist, [s1 |-> s1, s2 |-> s2, d2 |-> d2])
Next == Len(hist) < Runs /\ \E s1 \in States, s2 \in States, d2 \in {1, 2} : Run(s1, s2, d2)
Spec == Init /\ [][Next]_<<out, hist>>
(* what is left belongs to plots of the last run that differ or could not be compared *)
Last == hist[Len(hist)]
Of(x, f) == ~Good(x) /\ f \in Left(x)
Own == hist = <<>> \/ \A f \in out : Of(Conf(1, Last.s1, 0), f) \/ (Last.d2 = 1 /\ Of(Conf(2, Last.s2, Last.d2), f))
(* plots whose names start alike share no files *)
Apart == hist = <<>> \/ Left(Conf(1, Last.s1, 0)) \cap Left(Conf(2, Last.s2, Last.d2)) = {}
(* a plot that differs keeps its configuration, picture and by-products *)
Kept == hist = <<>> \/ Good(Conf(1, Last.s1, 0)) \/ [dir |-> "data", name |-> "plot1_py.data"] \in out
Emit == IF Len(hist) = Runs THEN PrintT("CASE" \o ToJson(hist)) ELSE TRUE
================================================================================
