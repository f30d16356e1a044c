--------------------------------- MODULE TV_Tost --------------------------------
EXTENDS Tost
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- TVerdict
================================================================================
