-------------------------------- MODULE TV_Serial -------------------------------
EXTENDS Serial
VARIABLE i
INSTANCE TraceWalk WITH Verdict <- SerialVerdict
================================================================================
