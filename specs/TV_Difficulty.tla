------------------------------ MODULE TV_Difficulty -----------------------------
EXTENDS Difficulty
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- DiffVerdict
================================================================================
