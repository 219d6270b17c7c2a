SPECIFICATION Spec
INVARIANTS Decoded Emit
CHECK_DEADLOCK FALSE
