-------------------------------- MODULE TV_Total --------------------------------
EXTENDS Total
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- TotalVerdict
================================================================================
