SPECIFICATION Spec
INVARIANTS Declarative Emit
CHECK_DEADLOCK FALSE
