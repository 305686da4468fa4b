CONSTANTS
  MaxLen = 6
  MaxNum = 6
SPECIFICATION Spec
INVARIANTS FindsLeftmost DeductionSound
CHECK_DEADLOCK FALSE
