SPECIFICATION Spec
INVARIANTS Agrees One Verbatim Emit
CHECK_DEADLOCK FALSE
