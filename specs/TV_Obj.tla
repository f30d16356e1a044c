--------------------------------- MODULE TV_Obj ---------------------------------
EXTENDS Obj
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- ObjVerdict
================================================================================
