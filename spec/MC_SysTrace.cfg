SPECIFICATION Spec
INVARIANTS Declarative RegionAgrees Emit
CHECK_DEADLOCK FALSE
