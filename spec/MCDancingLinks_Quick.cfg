CONSTANTS
  MaxCons = 3
  MaxRow = 2
  MaxForce = 1
  AnyOrder = FALSE
  Instances <- AllInstances
SPECIFICATION Spec
INVARIANTS MemorySafe NothingLeaks RepliesRight LinksRight RowsRight ResultRight
PROPERTY Terminates
CHECK_DEADLOCK FALSE
