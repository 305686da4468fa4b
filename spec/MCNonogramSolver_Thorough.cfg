CONSTANTS
  Shapes <- Shapes33
  AnyLine = FALSE
  WithZero = FALSE
SPECIFICATION Spec
INVARIANTS FoundRight FailedRight MarksSound ContradictionSound SearchAgrees EvidentRight

CHECK_DEADLOCK FALSE
