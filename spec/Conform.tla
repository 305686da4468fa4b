------------------------------ MODULE Conform ------------------------------
(***************************************************************************)
(* Conformance of recorded calls. Each line of the trace is one call of the*)
(* real library: its operation, arguments and outcome. A call is a         *)
(* behaviour of two states, called -> returned; TLC takes the step only if *)
(* the specification explains the outcome, and otherwise goes to the       *)
(* "rejected" state, which the invariant NotRejected forbids.              *)
(* Panics, crashes and hangs are outcomes (k = "panic", "crash", "hang")   *)
(* which no operation of the specification has.                            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, ConformMaze, ConformPicture, ConformPuzzle

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES event, verdict

Explained(e) ==
  CASE e.op \in MazeOps -> MazeExplained(e)
    [] e.op \in PictureOps -> PictureExplained(e)
    [] e.op \in PuzzleOps -> PuzzleExplained(e)
    [] OTHER -> FALSE

Init == event \in 1..Len(Trace) /\ verdict = "called"
Next == /\ verdict = "called"
        /\ verdict' = IF Explained(Trace[event]) THEN "returned" ELSE "rejected"
        /\ event' = event
Spec == Init /\ [][Next]_<<event, verdict>>

NotRejected == verdict # "rejected"
=============================================================================
