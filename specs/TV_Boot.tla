-------------------------------- MODULE TV_Boot ---------------------------------
EXTENDS Boot
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- BootVerdict
================================================================================
