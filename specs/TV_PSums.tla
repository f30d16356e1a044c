-------------------------------- MODULE TV_PSums --------------------------------
EXTENDS PSums
VARIABLE i
INSTANCE TraceWalk
================================================================================
