-------------------------------- MODULE TV_Indep --------------------------------
EXTENDS Indep
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- IndepVerdict
================================================================================
