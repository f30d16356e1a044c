---------------------------------- MODULE Indep ---------------------------------
(* Score calls share one process but no memory: a call may use process-wide settings while it runs, and the     *)
(* next call must not notice.  An answer is a function of the call alone, and arguments are read only.          *)
EXTENDS Conf, Sequences

(* e = [call, after, got, fresh, changed] : what a call answered after other calls, what it answers in a fresh   *)
(* process, and which of its arguments it modified                                                              *)
IndepVerdict(e) == (IF e.got = e.fresh THEN {} ELSE {"differs " \o e.call \o " after " \o e.after \o ": " \o e.got \o " instead of " \o e.fresh})
            \union (IF e.changed = <<>> THEN {} ELSE {"modified " \o e.call \o " " \o e.changed[1]})
================================================================================
