--------------------------------- MODULE TV_Vec ---------------------------------
EXTENDS Vec
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- VecVerdict
================================================================================
