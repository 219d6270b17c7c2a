SPECIFICATION Spec
INVARIANTS InOrder ExactlyOnce Emit
CHECK_DEADLOCK FALSE
