------------------------------- MODULE TV_Validate ------------------------------
EXTENDS Validate
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- ValVerdict
================================================================================
