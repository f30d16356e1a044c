------------------------------- MODULE TV_ObjRun --------------------------------
EXTENDS ObjRun
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- ObjRunVerdict
================================================================================
