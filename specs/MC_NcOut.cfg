CONSTANT
  Years = 60
INIT Init
NEXT Next
INVARIANTS WindLaws DayLaw Known Emit
CHECK_DEADLOCK FALSE
