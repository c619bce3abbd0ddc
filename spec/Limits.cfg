INIT Init
NEXT Next
INVARIANT Invariant
CHECK_DEADLOCK FALSE
