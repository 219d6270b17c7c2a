SPECIFICATION Spec
CONSTANT Content <- MCContent
CONSTANT Fallback <- MCFallback
INVARIANTS Transparent Honest
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT Depth = 4
CONSTANT Quiet = FALSE
