SPECIFICATION Spec
INVARIANTS Agrees NoColons AtMostThree Emit
CHECK_DEADLOCK FALSE
