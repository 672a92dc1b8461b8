INIT Init
NEXT Next
VIEW View
INVARIANTS InvFailed InvOthers InvRound InvCopy
CHECK_DEADLOCK FALSE
