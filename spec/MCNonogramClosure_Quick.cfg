CONSTANTS
  MaxLen = 5
  W = 2
  H = 2
SPECIFICATION Spec
INVARIANTS LineMeaning GridMeaning
CHECK_DEADLOCK FALSE
