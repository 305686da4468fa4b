CONSTANTS
  Values = {0, 255}
  MaxSide = 2
  Damage = {3}
SPECIFICATION Spec
INVARIANTS ShowsWhatWasWritten DamageIsSeen
CHECK_DEADLOCK FALSE
