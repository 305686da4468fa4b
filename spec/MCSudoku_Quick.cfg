CONSTANTS
  MaxGivens = 2
  AnyOrder = FALSE
  Instances <- AllInstances
SPECIFICATION Spec
INVARIANTS SolvedRight UnsolvedRight RefusedRight
CHECK_DEADLOCK FALSE
