SPECIFICATION Spec
INVARIANTS Complete Kept0 Sorted NothingElse Within Emit
CHECK_DEADLOCK FALSE
