INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS BigInv IdxInv PosInv LineStep LineWrite
