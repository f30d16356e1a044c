------------------------------- MODULE TV_Vertical ------------------------------
EXTENDS Vertical
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- VertVerdict
================================================================================
