------------------------------- MODULE TV_Limits --------------------------------
EXTENDS Limits
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- LimVerdict
================================================================================
