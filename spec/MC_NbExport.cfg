SPECIFICATION Spec
INVARIANTS Agrees Untouched Once Supplied Emit
CHECK_DEADLOCK FALSE
