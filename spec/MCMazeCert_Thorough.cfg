CONSTANTS W = 3  H = 1  MaxSteps = 3  Nest = TRUE
SPECIFICATION Spec
INVARIANTS DistanceMeaning WalkMeaning NestMeaning
CHECK_DEADLOCK FALSE
