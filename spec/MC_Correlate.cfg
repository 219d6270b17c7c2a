SPECIFICATION Spec
INVARIANTS Sampled Symmetric Identical Shifted Weighted TenthsOK
CHECK_DEADLOCK FALSE
