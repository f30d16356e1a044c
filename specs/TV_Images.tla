------------------------------- MODULE TV_Images --------------------------------
EXTENDS Images
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- ImageVerdict
================================================================================
