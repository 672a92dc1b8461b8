INIT Init
NEXT Next
INVARIANT Consumed
CHECK_DEADLOCK FALSE
