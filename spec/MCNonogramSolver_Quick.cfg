CONSTANTS
  Shapes <- Shapes22
  AnyLine = TRUE
  WithZero = TRUE
SPECIFICATION Spec
INVARIANTS FoundRight FailedRight MarksSound ContradictionSound SearchAgrees EvidentRight
PROPERTY Terminates
CHECK_DEADLOCK FALSE
