------------------------------ MODULE TV_Equalize -------------------------------
EXTENDS Equalize
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- EqVerdict
================================================================================
