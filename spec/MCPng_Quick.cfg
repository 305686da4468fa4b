CONSTANTS
  Values = {0, 255}
  MaxSide = 2
  Damage = {}
SPECIFICATION Spec
INVARIANTS ShowsWhatWasWritten DamageIsSeen
CHECK_DEADLOCK FALSE
