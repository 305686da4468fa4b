------------------------------ MODULE MCPicture ------------------------------
(***************************************************************************)
(* The overlay as a state machine, and lemmas about display lists.         *)
(* State: an image of W x H pixels, the walk taken so far, the pen. From   *)
(* every state the pen may take any of the four steps. Invariants: the     *)
(* incremental pen (PenStep, which the expectations use) accepts exactly   *)
(* the walks all of whose points lie inside, and the pixels of its display *)
(* list are exactly the line through those points.                         *)
(***************************************************************************)
EXTENDS ConformPicture

CONSTANT MaxWalk
Sizes == {<<5, 20>>, <<20, 5>>, <<6, 6>>, <<6, 11>>, <<11, 11>>, <<15, 25>>, <<16, 21>>, <<21, 16>>, <<21, 21>>,
          <<26, 15>>, <<31, 11>>, <<11, 31>>}
VARIABLES size, walk, pen

W == size[1]
H == size[2]
Init == size \in Sizes /\ walk = <<>> /\ pen = PenStart
Next == \E d \in Directions :
          /\ Len(walk) < MaxWalk /\ pen.ok
          /\ walk' = <<d>> \o walk          \* solutions are listed last step first
          /\ pen' = PenStep(W, H, pen, d)
          /\ UNCHANGED size
Spec == Init /\ [][Next]_<<size, walk, pen>>

PenAgrees == W >= 6 /\ H >= 6 => Pen(W, H, walk) = PenEnd(H, pen)
Accepts == W >= 6 /\ H >= 6 => (PenEnd(H, pen).ok <=> LineFits(Points(walk), W, H))
Paints == W >= 6 /\ H >= 6 /\ PenEnd(H, pen).ok =>
            \A x \in 0..(W - 1), y \in 0..(H - 1) :
              (PixelOf(PenEnd(H, pen).ops, "white", x, y) = "red") <=> OnLine(Points(walk), x, y)
Refuses == W < 6 \/ H < 6 => OverlayPicture(W, H, walk).k = "err"

\* Lemma: the display list of a printed maze shows what C05 says, for all mazes of small size
Flags(n) == [1..n -> {0, 1}]
MazeLemma(w, h) == \A r \in Flags(w * h), d \in Flags(w * h) :
  LET p == MazePicture(w, h, r, d) IN
  \A x \in 0..(10 * w), y \in 0..(10 * h) :
    (PixelOf(p.ops, "white", x, y) = "black") <=> MazeBlack(w, h, r, d, x, y)
ASSUME MazeLemma(1, 1) /\ MazeLemma(2, 1) /\ MazeLemma(1, 2)

\* Lemma: the sudoku lines and the nonogram overlay, pixel by pixel
ASSUME \A i \in 0..899, y \in {0, 1, 50, 99, 100, 101, 298, 299, 300, 301, 302, 450, 599, 600, 601, 602, 799, 800, 801, 899} :
         (PixelOf(SudokuLines, "white", i, y) = "black") <=>
           (\E n \in {i, y} : n % 100 = 0 \/ n \in {299, 301, 599, 601})
ASSUME \A g \in Flags(2) :
         LET p == NonoOverlay(2, 1, NonoW(2), NonoH(1), g) IN
         \A x \in 140..(NonoW(2) - 1), y \in 145..(NonoH(1) - 1) :
           (PixelOf(p.ops, "white", x, y) = "black") <=>
             (x >= 150 /\ y >= 150 /\ (x - 150) % 50 # 0 /\ (y - 150) % 50 # 0 /\ g[((x - 150) \div 50) + 1] = 1)
=============================================================================
