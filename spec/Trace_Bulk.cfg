SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Total = 0
  Batch = 1
