SPECIFICATION Spec
INVARIANTS Interval Both AllOpen Emit
CHECK_DEADLOCK FALSE
