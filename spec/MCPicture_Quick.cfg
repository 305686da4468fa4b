CONSTANTS
  MaxWalk = 4
SPECIFICATION Spec
INVARIANTS PenAgrees Accepts Paints Refuses
CHECK_DEADLOCK FALSE
