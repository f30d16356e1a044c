--------------------------------- MODULE TV_Agg ---------------------------------
EXTENDS Agg
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- AggVerdict
================================================================================
