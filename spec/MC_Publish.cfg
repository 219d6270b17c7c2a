SPECIFICATION Spec
INVARIANTS NothingLocal OthersKept AsSpecified Idempotent Emit
CHECK_DEADLOCK FALSE
