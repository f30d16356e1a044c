--------------------------------- MODULE TV_Sum ---------------------------------
EXTENDS Sum
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- SVerdict
================================================================================
