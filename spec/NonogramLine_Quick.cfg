CONSTANTS
  MaxLen = 5
  MaxNum = 5
SPECIFICATION Spec
INVARIANTS FindsLeftmost DeductionSound
CHECK_DEADLOCK FALSE
