------------------------------- MODULE TV_MjoEnso ---------------------------------
EXTENDS MjoEnso
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- MjoEnsoVerdict
================================================================================
