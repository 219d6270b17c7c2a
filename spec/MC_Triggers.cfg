SPECIFICATION Spec
INVARIANTS Agrees OwnPivotOnly Emit
CHECK_DEADLOCK FALSE
