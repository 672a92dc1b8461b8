INIT Init
NEXT Next
INVARIANTS InvFailed InvExact InvOutside InvWork
CHECK_DEADLOCK FALSE
