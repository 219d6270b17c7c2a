SPECIFICATION Spec
INVARIANTS Agrees Own NotBefore Apart Emit
CHECK_DEADLOCK FALSE
