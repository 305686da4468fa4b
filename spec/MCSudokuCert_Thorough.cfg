CONSTANTS
  Cleared = {{1}, {6, 7}, {1, 2, 5}, {3, 4, 7, 8}, {1, 6, 11, 16}, {1, 2, 3, 4}, {5, 9, 13}}
  Changed = {8, 9, 10, 15}
  MaxLen = 3
SPECIFICATION Spec
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
