SPECIFICATION Spec
CONSTANTS
  Total = 7
  Batch = 3
INVARIANTS AllGiven WarnedOnce Partition Run Wide
CHECK_DEADLOCK FALSE
