INIT Init
NEXT Next
INVARIANTS InvCacheWhole InvNextRun InvOthers InvLeft InvOrder InvErr InvCached
CHECK_DEADLOCK FALSE
