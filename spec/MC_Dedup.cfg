SPECIFICATION Spec
INVARIANTS FirstsStay Increasing Bounded Emit
CHECK_DEADLOCK FALSE
