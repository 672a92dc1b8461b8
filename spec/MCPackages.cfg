SPECIFICATION Spec
INVARIANTS InvOnce InvClosed InvNode InvFound InvOnlyAdded
PROPERTY Refines
CHECK_DEADLOCK FALSE
