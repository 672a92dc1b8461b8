INIT Init
NEXT Next
INVARIANTS InvAll InvOnce InvKnown
PROPERTY Keeps
CHECK_DEADLOCK FALSE
