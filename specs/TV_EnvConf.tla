------------------------------- MODULE TV_EnvConf -------------------------------
EXTENDS EnvConf
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- EnvVerdict
================================================================================
