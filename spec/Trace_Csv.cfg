SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Objects = {1, 2}
  Files = {1, 2}
  Tables = {}
