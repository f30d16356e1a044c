CONSTANT
  L = 5
INIT Init
NEXT Next
INVARIANTS RunLaws TaperLaws SumLaw FilterLaws PlaneLaw Emit
CHECK_DEADLOCK FALSE
