SPECIFICATION Spec
INVARIANTS Agrees One Covers Sources Emit
CHECK_DEADLOCK FALSE
