CONSTANT
  L = 5
INIT Init
NEXT Next
INVARIANTS CoefLaws RankLaws SelfLaw PowerLaws SpreadLaws EvidenceLaws Emit
CHECK_DEADLOCK FALSE
