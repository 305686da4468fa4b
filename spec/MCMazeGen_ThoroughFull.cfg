CONSTANTS Shapes <- ThoroughFull  Reduce = FALSE
SPECIFICATION FairSpec
INVARIANTS Forest StackIsPath CarvedRight QueueNeverEmpty Final Collect
PROPERTY Terminates
POSTCONDITION AllReached
