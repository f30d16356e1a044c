--------------------------------- MODULE TV_Eclv --------------------------------
EXTENDS Eclv
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- EclvVerdict
================================================================================
