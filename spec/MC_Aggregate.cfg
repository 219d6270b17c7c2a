SPECIFICATION Spec
INVARIANTS MemoIsBase Repeatable AddsUp Emit
CHECK_DEADLOCK FALSE
