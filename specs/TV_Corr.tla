-------------------------------- MODULE TV_Corr ----------------------------------
EXTENDS Corr
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- CorrVerdict
================================================================================
