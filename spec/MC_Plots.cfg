SPECIFICATION Spec
INVARIANTS Agrees Once Everything Inside OwnCell Emit
CHECK_DEADLOCK FALSE
