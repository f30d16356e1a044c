CONSTANT
  L = 3
INIT Init
NEXT Next
INVARIANTS TauLaws PassLaw WaveLaws MonthLaws Emit
CHECK_DEADLOCK FALSE
