------------------------------- MODULE TV_Regimes ---------------------------------
EXTENDS Regimes
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- RegimesVerdict
================================================================================
