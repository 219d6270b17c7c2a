SPECIFICATION Spec
INVARIANTS Agrees Sound Covered InDomain Emit
CHECK_DEADLOCK FALSE
