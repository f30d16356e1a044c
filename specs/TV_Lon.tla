---------------------------------- MODULE TV_Lon --------------------------------
EXTENDS Lon
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- LonVerdict
================================================================================
