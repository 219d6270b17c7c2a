SPECIFICATION Spec
INVARIANTS LogOrdered BumpSmall BaseIsFirst NothingBefore OwnersOk
CHECK_DEADLOCK FALSE
