------------------------------- MODULE TV_Blocking ---------------------------------
EXTENDS Blocking
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- BlockingVerdict
================================================================================
