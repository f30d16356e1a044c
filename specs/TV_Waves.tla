------------------------------- MODULE TV_Waves ---------------------------------
EXTENDS Waves
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- WavesVerdict
================================================================================
