INIT Init
NEXT Next
INVARIANTS InvExact InvOnce InvRules InvTemplate InvSlashes
CHECK_DEADLOCK FALSE
VIEW View
