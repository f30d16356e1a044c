INIT Init
NEXT Next
CONSTANTS
 N = 6
INVARIANTS AcfLaws AcfSum ArLaws RunLaws RunMoments SumLaw Emit
CHECK_DEADLOCK FALSE
