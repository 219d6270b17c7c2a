SPECIFICATION Spec
INVARIANT TablesUnique
CHECK_DEADLOCK FALSE
