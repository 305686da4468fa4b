CONSTANTS Shapes <- QuickReduced  Reduce = TRUE
SPECIFICATION FairSpec
INVARIANTS Forest StackIsPath CarvedRight QueueNeverEmpty Final Collect
PROPERTY Terminates
POSTCONDITION AllReached
