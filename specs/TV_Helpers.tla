------------------------------- MODULE TV_Helpers -------------------------------
EXTENDS Helpers
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- HelpVerdict
================================================================================
