INIT Init
NEXT Next
INVARIANTS InvRefs InvNames InvShared InvOps
CHECK_DEADLOCK FALSE
VIEW View
