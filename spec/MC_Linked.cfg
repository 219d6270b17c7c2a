SPECIFICATION Spec
INVARIANTS CoversOwn Agree Needed Emit
CHECK_DEADLOCK FALSE
