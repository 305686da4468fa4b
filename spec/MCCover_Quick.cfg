CONSTANTS
  MaxCons = 3
  MaxRow = 2
  MaxForce = 2
  AnyOrder = TRUE
  Instances <- AllInstances
SPECIFICATION Spec
INVARIANTS ForcedDisjoint FoundRight FailedRight SearchAgrees FailedDef
PROPERTY Terminates
CHECK_DEADLOCK FALSE
