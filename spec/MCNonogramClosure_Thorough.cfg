CONSTANTS
  MaxLen = 7
  W = 3
  H = 2
SPECIFICATION Spec
INVARIANTS LineMeaning GridMeaning
CHECK_DEADLOCK FALSE
