INIT Init
NEXT Next
INVARIANTS InvProgram InvFiles InvMade InvFails InvApart InvCache InvAgain Emit
CHECK_DEADLOCK FALSE
