SPECIFICATION Spec
CONSTANT Content <- MCContent
CONSTANT Fallback <- MCFallback
INVARIANTS Transparent Honest
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT Depth = 3
CONSTANT Quiet = FALSE
