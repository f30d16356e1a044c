INIT Init
NEXT Next
CONSTANTS
  Tot = {1, 3}
  Val = {0, 1, 2}
  Skill = {"0", "1/2"}
INVARIANTS SplitInvariant OneLine Between Emit
CHECK_DEADLOCK FALSE
