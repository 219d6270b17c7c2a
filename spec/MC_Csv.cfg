SPECIFICATION Spec
CONSTANTS
  Objects = {1, 2}
  Files = {1}
  Tables <- MCTables
INVARIANTS Kept Fresh Emit
CHECK_DEADLOCK FALSE
