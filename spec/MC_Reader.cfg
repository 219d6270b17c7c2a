SPECIFICATION Spec
INVARIANTS LogOrdered BumpSmall BaseIsFirst NothingBefore OwnersOk Declarative Recoverable Emit
CHECK_DEADLOCK FALSE
