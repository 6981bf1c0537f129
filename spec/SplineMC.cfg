INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS KnotCount KnotsSorted RangeOk PartitionOfUnity DerivativesSumToZero NonNegative UniqueSolution Identity Smooth Periodic TopDerivative
