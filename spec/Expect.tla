------------------------------- MODULE Expect -------------------------------
(* The specification as generator: for every case (an operation with its    *)
(* arguments) the outcome the specification requires, written back as JSON. *)
EXTENDS Picture, Json, IOUtils

ExpectOf(c) ==
  CASE c.op = "print_maze"     -> MazePicture(c.w, c.h, c.right, c.down)
    [] c.op = "maze_overlay"   -> OverlayPicture(c.iw, c.ih, c.sol)
    [] c.op = "print_sudoku"   -> SudokuPicture(c.p)
    [] c.op = "print_nonogram" -> NonoPicture(c.w, c.h, c.col, c.row)
    [] c.op = "nono_overlay"   -> NonoOverlay(c.w, c.h, c.iw, c.ih, c.grid)

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = ndJsonSerialize(IOEnv.EXPECT, [i \in 1..Len(Cases) |-> ExpectOf(Cases[i])])
Spec == Init /\ [][Next]_done
=============================================================================
