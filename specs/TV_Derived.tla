------------------------------- MODULE TV_Derived -------------------------------
EXTENDS Derived
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- DerivedVerdict
================================================================================
