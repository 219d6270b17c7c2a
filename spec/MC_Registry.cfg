SPECIFICATION Spec
INVARIANTS TablesUnique Meaning Gone Emit
VIEW View
CHECK_DEADLOCK FALSE
