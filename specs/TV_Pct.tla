--------------------------------- MODULE TV_Pct ---------------------------------
EXTENDS Pct
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- PctVerdict
================================================================================
