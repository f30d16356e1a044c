INIT Init
NEXT Next
CONSTANTS
  Top = 4
  Ratios = {"0.05", "1/4", "1/3", "1/2", "3/5", "9/10"}
INVARIANTS TwoBranches Peak Perfect Undefined Emit
CHECK_DEADLOCK FALSE
