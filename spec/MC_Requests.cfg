SPECIFICATION Spec
INVARIANTS Named NotTwice Emit
CHECK_DEADLOCK FALSE
