CONSTANTS W = 2  H = 2  MaxSteps = 2  Nest = TRUE
SPECIFICATION Spec
INVARIANTS DistanceMeaning WalkMeaning NestMeaning
CHECK_DEADLOCK FALSE
