-------------------------------- MODULE MC_Total --------------------------------
(* Table shapes for a score with N input columns: every column is of one class (usual numbers, 0, 1, missing,   *)
(* missing in the first row only) except up to two columns, each of another class; 0 to 2 rows.                 *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANT N
VARIABLE s
Class == {"usual", "zero", "one", "missing", "partly"}
Base == {"usual", "zero", "one", "missing"}
Init == \E r \in 0..2, b \in Base, i, j \in 0..N, c, d \in Class :
          /\ i <= j /\ (i = j => c = d)
          /\ (i = 0 => c = b) /\ (i > 0 => c # b) /\ (j > 0 => d # b)
          /\ (r < 2 => c # "partly" /\ d # "partly") /\ (r = 0 => i = 0 /\ j = 0 /\ b = "usual")
          /\ s = [rows |-> r, base |-> b, dev |-> IF j = 0 THEN <<>> ELSE IF i = 0 \/ i = j THEN <<<<j, d>>>> ELSE <<<<i, c>>, <<j, d>>>>]
Next == FALSE /\ UNCHANGED s
Shape == /\ Len(s.dev) <= 2 /\ \A k \in DOMAIN s.dev : s.dev[k][2] # s.base /\ s.dev[k][1] \in 1..N
         /\ Len(s.dev) = 2 => s.dev[1][1] < s.dev[2][1]
Emit == PrintT("CASE" \o ToJson(s))
================================================================================
