---------------------------------- MODULE Total ---------------------------------
(* Totality of score calls: whatever the cells (numbers or missing), a call answers with a finite number or     *)
(* with the missing marker.                                                                                     *)
EXTENDS Conf, Sequences
Answer(o) == RDefined(o) \/ o \in Missing
TotalVerdict(e) == {e.fam \o ":" \o e.out[k][1] \o " answered " \o e.out[k][2] : k \in {j \in DOMAIN e.out : ~Answer(e.out[j][2])}}
================================================================================
