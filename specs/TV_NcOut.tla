-------------------------------- MODULE TV_NcOut ---------------------------------
EXTENDS NcOut
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- NcOutVerdict
================================================================================
