CONSTANTS
  MaxCons = 3
  MaxRow = 2
  MaxForce = 2
  AnyOrder = TRUE
  Instances <- AllInstances
SPECIFICATION Spec
INVARIANTS MemorySafe NothingLeaks RepliesRight LinksRight RowsRight ResultRight

CHECK_DEADLOCK FALSE
