--------------------------------- MODULE TV_Thr ---------------------------------
EXTENDS Thr
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- ThrVerdict
================================================================================
