CONSTANTS
  MaxCons = 4
  MaxRow = 3
  MaxForce = 1
  AnyOrder = TRUE
  Instances <- AllInstances
SPECIFICATION Spec
INVARIANTS ForcedDisjoint FoundRight FailedRight SearchAgrees FailedDef
PROPERTY Terminates
CHECK_DEADLOCK FALSE
