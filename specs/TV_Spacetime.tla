------------------------------ MODULE TV_Spacetime ------------------------------
EXTENDS Spacetime
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- SpacetimeVerdict
================================================================================
