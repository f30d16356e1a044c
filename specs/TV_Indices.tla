------------------------------- MODULE TV_Indices ---------------------------------
EXTENDS Indices
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- IndicesVerdict
================================================================================
