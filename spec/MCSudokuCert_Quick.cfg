CONSTANTS
  Cleared = {{1}, {6, 7}, {1, 2, 5}, {3, 4, 7, 8}}
  Changed = {9, 10, 15}
  MaxLen = 3
SPECIFICATION Spec
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
