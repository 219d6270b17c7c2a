SPECIFICATION Spec
INVARIANTS Agrees Complete Once OwnEvent Product Numbered Emit
CHECK_DEADLOCK FALSE
