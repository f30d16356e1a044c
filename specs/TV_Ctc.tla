--------------------------------- MODULE TV_Ctc ---------------------------------
EXTENDS Ctc
VARIABLE i
INSTANCE TraceWalk
================================================================================
