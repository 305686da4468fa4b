CONSTANTS Shapes <- QuickFull  Reduce = FALSE
SPECIFICATION FairSpec
INVARIANTS Forest StackIsPath CarvedRight QueueNeverEmpty Final Collect
PROPERTY Terminates
POSTCONDITION AllReached
