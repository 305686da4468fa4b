--------------------------- MODULE ConformPicture ---------------------------
(* Which outcomes of the printing functions the specification explains.      *)
(* The harness has rasterised the display list that the specification gave   *)
(* (Expect) and compared it with the picture: eq. Small pictures also come   *)
(* pixel by pixel (px, rows of colour codes) and are judged here directly.   *)
EXTENDS MazeDefs, Picture

PNG == INSTANCE Png

PictureOps == {"C05", "C06", "C07", "C08node", "C08dir", "C08maze", "C13", "C21", "C22", "C24", "C24print"}

Shown(exp, o) ==
  IF exp.k = "ok" THEN o.k = "ok" /\ o.w = exp.w /\ o.h = exp.h /\ o.eq
  ELSE o.k = "err" /\ o.e = exp.e

Black == 0
White == 1
Red == 2
Other == 9

\* C06, pixel by pixel on a white background: the centres the walk passes, and the line through them
WalkX(sol, k) == FoldLeft(LAMBDA n, d : n + (IF d = "Right" THEN 1 ELSE IF d = "Left" THEN -1 ELSE 0), 0, SubSeq(Reverse(sol), 1, k))
WalkY(sol, k) == FoldLeft(LAMBDA n, d : n + (IF d = "Down" THEN 1 ELSE IF d = "Up" THEN -1 ELSE 0), 0, SubSeq(Reverse(sol), 1, k))
Between(a, b, c) == (a <= b /\ b <= c) \/ (c <= b /\ b <= a)
Points(sol) == <<[x |-> 5, y |-> 0]>>
               \o [k \in 1..(Len(sol) + 1) |-> [x |-> 10 * WalkX(sol, k - 1) + 5, y |-> 10 * WalkY(sol, k - 1) + 5]]
               \o <<[x |-> 10 * WalkX(sol, Len(sol)) + 5, y |-> 10 * WalkY(sol, Len(sol)) + 10]>>
OnLine(pts, x, y) == \E k \in 1..(Len(pts) - 1) : Between(pts[k].x, x, pts[k + 1].x) /\ Between(pts[k].y, y, pts[k + 1].y)
LineFits(pts, W, H) == \A k \in 1..Len(pts) : pts[k].x >= 0 /\ pts[k].x < W /\ pts[k].y >= 0 /\ pts[k].y < H

\* C07: the changed pixels, as a set of <<x, y>>
PNeigh(S, p) == {q \in {<<p[1] + 1, p[2]>>, <<p[1] - 1, p[2]>>, <<p[1], p[2] + 1>>, <<p[1], p[2] - 1>>} : q \in S}
RECURSIVE Follow(_, _, _, _)
\* walks along a line of pixels; stops at a fork (FALSE) or at the end (all pixels seen?)
Follow(S, prev, p, n) ==
  LET next == PNeigh(S, p) \ {prev} IN
  IF next = {} THEN n = Cardinality(S)
  ELSE IF Cardinality(next) > 1 \/ n > Cardinality(S) THEN FALSE
  ELSE Follow(S, p, CHOOSE q \in next : TRUE, n + 1)
\* The same by certificate: the pixels listed in order from the top. Listed pixels that follow one another
\* touch, all are listed, and there are no other places where pixels touch: one line without forks.
InLine(S, line) ==
  /\ {line[k] : k \in 1..Len(line)} = S /\ Len(line) = Cardinality(S)
  /\ \A k \in 1..(Len(line) - 1) :
       LET a == line[k]  b == line[k + 1] IN
       \/ a[1] = b[1] /\ (a[2] - b[2]) \in {-1, 1}
       \/ a[2] = b[2] /\ (a[1] - b[1]) \in {-1, 1}
  /\ Cardinality({p \in S : <<p[1] + 1, p[2]>> \in S}) + Cardinality({p \in S : <<p[1], p[2] + 1>> \in S}) = Len(line) - 1
Picture7(e) ==
  LET o == e.out
      S == {<<o.changed[k][1], o.changed[k][2]>> : k \in 1..Len(o.changed)}
      starts == {p \in S : p[2] = 0}
      ends == {p \in S : p[2] = o.h - 1}
  IN /\ o.k = "ok" /\ o.same_size
     /\ o.w = 10 * e.w + 1 /\ o.h = 10 * e.h + 1
     /\ \A k \in 1..Len(o.changed) : o.changed[k][3] = White /\ o.changed[k][4] = Red
     /\ Cardinality(starts) = 1 /\ Cardinality(ends) = 1
     /\ LET s == CHOOSE p \in starts : TRUE
            t == CHOOSE p \in ends : TRUE
        IN /\ Cardinality(PNeigh(S, s)) = 1 /\ Cardinality(PNeigh(S, t)) = 1
           /\ IF "line" \in DOMAIN e THEN InLine(S, e.line) /\ e.line[1] = s /\ e.line[Len(e.line)] = t
              ELSE Follow(S, s, s, 1)
           \* each end lies in a gap: a run of white pixels that is not the whole border
           /\ \E x \in 0..(o.w - 1) : ~\E k \in 1..Len(o.top) : o.top[k] = x
           /\ \E x \in 0..(o.w - 1) : ~\E k \in 1..Len(o.bottom) : o.bottom[k] = x

\* C24: the file, read by the standard, shows the picture. A file that is too long to be recorded or that uses
\* what Png does not specify is left to the decoder of the library.
FileShows(file, w, h, raw) ==
  file # <<>> => \E r \in {PNG!Show(file)} : r.k = "other" \/ (r.k = "image" /\ r.w = w /\ r.h = h /\ r.px = raw)

PictureExplained(e) ==
  LET o == e.out IN
  CASE e.op = "C05" ->
         /\ Shown(MazePicture(e.w, e.h, e.right, e.down), o)
         /\ ("px" \in DOMAIN o) =>
              /\ Len(o.px) = 10 * e.h + 1
              /\ \A y \in 0..(10 * e.h) : Len(o.px[y + 1]) = 10 * e.w + 1
                   /\ \A x \in 0..(10 * e.w) :
                        o.px[y + 1][x + 1] = (IF MazeBlack(e.w, e.h, e.right, e.down, x, y) THEN Black ELSE White)
    [] e.op = "C06" ->
         /\ Shown(OverlayPicture(e.iw, e.ih, e.sol), o)
         /\ ("px" \in DOMAIN o) =>
              LET pts == Points(e.sol) IN
              /\ LineFits(pts, e.iw, e.ih)
              /\ Len(o.px) = e.ih
              /\ \A y \in 0..(e.ih - 1) : Len(o.px[y + 1]) = e.iw
                   /\ \A x \in 0..(e.iw - 1) : o.px[y + 1][x + 1] = (IF OnLine(pts, x, y) THEN Red ELSE White)
    [] e.op = "C07" -> Picture7(e)
    [] e.op = "C08node" -> /\ o.k = "ok" /\ o.same /\ o.right = e.right /\ o.down = e.down
                           /\ {o.keys[i] : i \in 1..Len(o.keys)} = {"right", "down"}
                           /\ Len(o.keys) = 2
                           \* in every format, the value that comes back has the flags that went in
                           /\ o.stored # <<>>
                           /\ \A i \in 1..Len(o.stored) :
                                o.stored[i] = [right |-> (e.right = 1), down |-> (e.down = 1)]
    [] e.op = "C08dir" -> /\ o.k = "ok" /\ o.name = e.d /\ o.again = e.d
                          /\ o.stored # <<>> /\ \A i \in 1..Len(o.stored) : o.stored[i] = e.d
    [] e.op = "C08maze" -> o.k = "ok" /\ o.before = o.after /\ o.samePic /\ o.sameSol /\ o.everyWay
    [] e.op = "C13" -> LET x == SudokuPicture(e.p) IN Shown(x, o) /\ (x.k = "err" => o.n = x.n)
    [] e.op = "C21" -> Shown(NonoPicture(e.w, e.h, e.col, e.row), o)
    [] e.op = "C22" -> Shown(NonoOverlay(e.w, e.h, e.iw, e.ih, e.grid), o)
    [] e.op = "C24" -> /\ o.k = "ok" /\ o.png /\ o.dec /\ o.eq /\ o.opaque
                       /\ o.w = e.w /\ o.h = e.h
                       /\ ("raw" \in DOMAIN e /\ o.raw # <<>>) => o.raw = e.raw
                       /\ ("raw" \in DOMAIN e) => FileShows(o.file, e.w, e.h, e.raw)
    [] e.op = "C24print" -> o.k = "ok" /\ o.png /\ o.dec /\ o.eq /\ o.opaque /\ o.w = o.ow /\ o.h = o.oh
                            /\ ("oraw" \in DOMAIN o) => FileShows(o.file, o.ow, o.oh, o.oraw)
=============================================================================
