--------------------------------- MODULE TV_Ens ---------------------------------
EXTENDS Ens
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- EnsVerdict
================================================================================
