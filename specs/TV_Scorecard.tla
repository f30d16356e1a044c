------------------------------ MODULE TV_Scorecard ------------------------------
EXTENDS Scorecard
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- ScoreVerdict
================================================================================
