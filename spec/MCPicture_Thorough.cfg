CONSTANTS
  MaxWalk = 7
SPECIFICATION Spec
INVARIANTS PenAgrees Accepts Paints Refuses
CHECK_DEADLOCK FALSE
