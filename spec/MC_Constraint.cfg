SPECIFICATION Spec
INVARIANTS Agrees Partition Emit
CHECK_DEADLOCK FALSE
