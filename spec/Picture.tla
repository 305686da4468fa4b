------------------------------ MODULE Picture ------------------------------
(***************************************************************************)
(* What the printing functions must draw (C05, C06, C07, C13, C21, C22).   *)
(* A picture is a display list: rectangles and texts, painted one over the *)
(* other on a background. The meaning of a display list of rectangles is   *)
(* PixelOf; MCPicture checks, on every small instance, that it is the      *)
(* picture the property describes pixel by pixel. Texts stay symbolic here *)
(* (which string, where, how large); the harness rasterises them.          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

Rect(x, y, w, h, c) == [t |-> "rect", x |-> x, y |-> y, w |-> w, h |-> h, c |-> c]
Text(x, y, size, s) == [t |-> "text", x |-> x, y |-> y, size |-> size, s |-> s, c |-> "black"]
Drawn(w, h, ops) == [k |-> "ok", w |-> w, h |-> h, ops |-> ops]
Refused(e) == [k |-> "err", e |-> e]

InRect(r, x, y) == x >= r.x /\ x < r.x + r.w /\ y >= r.y /\ y < r.y + r.h
\* The colour of a pixel under a list of rectangles: the last one covering it
PixelOf(ops, background, x, y) ==
  FoldLeft(LAMBDA c, r : IF InRect(r, x, y) THEN r.c ELSE c, background, ops)

Concat(seqs) == FoldLeft(LAMBDA a, b : a \o b, <<>>, seqs)
\* a sequence of length n
Seq0(n, Op(_)) == [i \in 1..n |-> Op(i - 1)]
Max2(a, b) == IF a > b THEN a ELSE b

(********************************* Mazes **********************************)
\* n = w * h without computing a product that may be too large for TLC
IsProduct(n, w, h) == IF w = 0 \/ h = 0 THEN n = 0 ELSE n % w = 0 /\ n \div w = h
MazePicture(w, h, right, down) ==
  IF ~IsProduct(Len(right), w, h) THEN Refused("InvalidDimensions")
  ELSE LET cell(c) ==
             LET x == c % w  y == c \div w IN
             (IF right[c + 1] = 1 THEN <<Rect(10 * x + 10, 10 * y, 1, 11, "black")>> ELSE <<>>) \o
             (IF down[c + 1] = 1 THEN <<Rect(10 * x, 10 * y + 10, 11, 1, "black")>> ELSE <<>>)
       IN Drawn(10 * w + 1, 10 * h + 1,
                <<Rect(0, 0, 1, 10 * h + 1, "black"), Rect(10, 0, 10 * w - 9, 1, "black")>>
                \o Concat(Seq0(w * h, cell)))

\* The property, pixel by pixel (C05). Cells outside the grid have no wall.
MazeBlack(w, h, right, down, x, y) ==
  LET cells == {c \in 0..(w * h - 1) : TRUE} IN
  \/ x = 0
  \/ y = 0 /\ x > 9
  \/ \E c \in cells : LET cx == 10 * (c % w)  cy == 10 * (c \div w) IN
       \/ right[c + 1] = 1 /\ x = cx + 10 /\ y \in cy..(cy + 10)
       \/ down[c + 1] = 1 /\ y = cy + 10 /\ x \in cx..(cx + 10)

(***************************** Solution overlay ****************************)
\* The pen stands at the centre of cell (x, y): pixel (10x + 5, 10y + 5).
Centre(n) == 10 * n + 5
Inside(W, H, px, py) == px >= 0 /\ py >= 0 /\ px < W /\ py < H
PenStart == [x |-> 0, y |-> 0, ok |-> TRUE, ops |-> <<Rect(5, 0, 1, 6, "red")>>]
PenStep(W, H, s, d) ==
  LET nx == CASE d = "Right" -> s.x + 1 [] d = "Left" -> s.x - 1 [] OTHER -> s.x
      ny == CASE d = "Down" -> s.y + 1 [] d = "Up" -> s.y - 1 [] OTHER -> s.y
      lx == IF nx < s.x THEN nx ELSE s.x
      ly == IF ny < s.y THEN ny ELSE s.y
  IN IF ~s.ok \/ ~Inside(W, H, Centre(nx), Centre(ny)) THEN [s EXCEPT !.ok = FALSE]
     ELSE [x |-> nx, y |-> ny, ok |-> TRUE,
           ops |-> Append(s.ops, IF ny = s.y THEN Rect(Centre(lx), Centre(ly), 11, 1, "red")
                                 ELSE Rect(Centre(lx), Centre(ly), 1, 11, "red"))]
PenEnd(H, s) ==
  IF ~s.ok \/ Centre(s.y) + 5 >= H THEN [s EXCEPT !.ok = FALSE]
  ELSE [s EXCEPT !.ops = Append(@, Rect(Centre(s.x), Centre(s.y), 1, 6, "red"))]
Pen(W, H, sol) == PenEnd(H, FoldLeft(LAMBDA s, d : PenStep(W, H, s, d), PenStart, Reverse(sol)))
OverlayPicture(W, H, sol) ==
  IF W < 6 \/ H < 6 THEN Refused("InvalidDimensions")
  ELSE LET p == Pen(W, H, sol) IN IF p.ok THEN Drawn(W, H, p.ops) ELSE Refused("InvalidSolution")

(********************************* Sudoku *********************************)
SudokuLines ==
  Concat(Seq0(9, LAMBDA g :
    LET k == 100 * g  t == IF g \in {3, 6} THEN 1 ELSE 0 IN
    <<Rect(0, k - t, 900, 2 * t + 1, "black"), Rect(k - t, 0, 2 * t + 1, 900, "black")>>))
SudokuPicture(p) ==
  IF Len(p) # 81 THEN [k |-> "err", e |-> "InvalidSize", n |-> Len(p)]
  ELSE Drawn(900, 900, SudokuLines \o
         Concat(Seq0(81, LAMBDA i : IF p[i + 1] = 0 THEN <<>>
           ELSE <<Text(100 * (i % 9) + 25, 100 * (i \div 9) + 5, 100, ToString(p[i + 1]))>>)))

(******************************** Nonograms *******************************)
Margin(n) == Max2(150, 10 * n)
NonoW(w) == 50 * w + Margin(w)
NonoH(h) == 50 * h + Margin(h)
Thick(i) == IF i % 5 = 0 THEN 1 ELSE 0
\* the numbers of the rules are given as numerals, because they may be beyond the integers of TLC
RowText(rule) == FoldLeft(LAMBDA s, n : IF s = "" THEN n ELSE s \o "  " \o n, "", rule)
NonoPicture(w, h, col, row) ==
  IF w # Len(col) \/ h # Len(row) THEN Refused("InvalidDimensions")
  ELSE LET mw == Margin(w)  mh == Margin(h) IN
       Drawn(NonoW(w), NonoH(h),
         Concat(Seq0(w, LAMBDA x : [k \in 1..Len(col[x + 1]) |->
                  Text(50 * x + mw + 15, 30 * (k - 1) + 10, 30, col[x + 1][k])]))
         \o [y \in 1..h |-> Text(10, 50 * (y - 1) + mh + 10, 30, RowText(row[y]))]
         \o [x \in 1..w |-> Rect(50 * (x - 1) + mw - Thick(x - 1), 0, 2 * Thick(x - 1) + 1, NonoH(h), "gray")]
         \o [y \in 1..h |-> Rect(0, 50 * (y - 1) + mh - Thick(y - 1), NonoW(w), 2 * Thick(y - 1) + 1, "gray")])
\* a width or height above Huge cannot match an image that fits in memory
Huge == 1000000
NonoOverlay(w, h, iw, ih, grid) ==
  IF w > Huge \/ h > Huge \/ ~IsProduct(Len(grid), w, h) \/ iw # NonoW(w) \/ ih # NonoH(h) THEN Refused("InvalidDimensions")
  ELSE Drawn(iw, ih, Concat(Seq0(w * h, LAMBDA i :
         IF grid[i + 1] = 1 THEN <<Rect(50 * (i % w) + Margin(w) + 1, 50 * (i \div w) + Margin(h) + 1, 49, 49, "black")>>
         ELSE <<>>)))
=============================================================================
