INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS IsBasis Unity Top
