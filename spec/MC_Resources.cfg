SPECIFICATION Spec
INVARIANTS Whole Works Wanted Kept Clean Emit
CHECK_DEADLOCK FALSE
