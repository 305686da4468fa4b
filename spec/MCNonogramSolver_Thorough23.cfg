CONSTANTS
  Shapes <- Shapes23
  AnyLine = TRUE
  WithZero = FALSE
SPECIFICATION Spec
INVARIANTS FoundRight FailedRight MarksSound ContradictionSound SearchAgrees EvidentRight

CHECK_DEADLOCK FALSE
