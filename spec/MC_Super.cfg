SPECIFICATION Spec
INVARIANTS LastValues IndexIsUnion Emit
CHECK_DEADLOCK FALSE
