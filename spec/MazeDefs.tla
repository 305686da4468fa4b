----------------------------- MODULE MazeDefs -----------------------------
(***************************************************************************)
(* What a maze is and what the maze properties mean (C01-C04, C07).        *)
(* A maze is a record [w, h, right, down]; cells are 0 .. w*h-1 row by     *)
(* row; right and down are sequences of 0/1 (1 = wall), cell c at c + 1.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

Cells(m) == 0..(m.w * m.h - 1)
X(m, c) == c % m.w
Y(m, c) == c \div m.w

\* The recorded data has the shape of a maze at all
WellFormed(m) ==
  /\ Len(m.right) = m.w * m.h
  /\ Len(m.down) = m.w * m.h
  /\ \A i \in 1..Len(m.right) : m.right[i] \in {0, 1} /\ m.down[i] \in {0, 1}

\* Open passages between neighbouring cells (the outer border is not a passage)
OpenRight(m, c) == X(m, c) < m.w - 1 /\ m.right[c + 1] = 0
OpenDown(m, c)  == Y(m, c) < m.h - 1 /\ m.down[c + 1] = 0
Neigh(m, c) ==
  (IF OpenRight(m, c) THEN {c + 1} ELSE {}) \cup
  (IF OpenDown(m, c) THEN {c + m.w} ELSE {}) \cup
  (IF X(m, c) > 0 /\ OpenRight(m, c - 1) THEN {c - 1} ELSE {}) \cup
  (IF Y(m, c) > 0 /\ OpenDown(m, c - m.w) THEN {c - m.w} ELSE {})

\* Neighbours in the grid, walls or not
GridNeigh(w, h, c) ==
  (IF c % w < w - 1 THEN {c + 1} ELSE {}) \cup
  (IF c \div w < h - 1 THEN {c + w} ELSE {}) \cup
  (IF c % w > 0 THEN {c - 1} ELSE {}) \cup
  (IF c \div w > 0 THEN {c - w} ELSE {})

\* Distance layers from the top-left cell: Layers(m)[k + 1] = cells k steps away.
\* A neighbour of a layer lies in the layer before, the layer itself or the next one.
RECURSIVE LayersFrom(_, _, _, _)
LayersFrom(m, prev, cur, acc) ==
  IF cur = {} THEN acc
  ELSE LET next == (UNION {Neigh(m, c) : c \in cur}) \ (prev \cup cur)
       IN LayersFrom(m, cur, next, Append(acc, cur))
Layers(m) == LayersFrom(m, {}, {0}, <<>>)

Passages(m) == Cardinality({c \in Cells(m) : OpenRight(m, c)})
               + Cardinality({c \in Cells(m) : OpenDown(m, c)})

Reached(layers) == FoldLeft(LAMBDA n, l : n + Cardinality(l), 0, layers)

\* C01: connected, one passage fewer than cells (so no loops), closed on the right
ClosedRight(m) == \A y \in 0..(m.h - 1) : m.right[y * m.w + m.w] = 1
PerfectWith(m, layers) ==
  /\ ClosedRight(m)
  /\ Passages(m) = m.w * m.h - 1
  /\ Reached(layers) = m.w * m.h
Perfect(m) == PerfectWith(m, Layers(m))

\* C02
BottomRow(m) == {m.w * (m.h - 1) + x : x \in 0..(m.w - 1)}
Exits(m) == {c \in BottomRow(m) : m.down[c + 1] = 0}
LayerOf(layers, c) == CHOOSE k \in 1..Len(layers) : c \in layers[k]
ExitRightWith(m, layers) ==
  /\ Cardinality(Exits(m)) = 1
  /\ LET e == CHOOSE c \in Exits(m) : TRUE IN
       \A c \in BottomRow(m) : LayerOf(layers, c) <= LayerOf(layers, e)
ExitRight(m) == ExitRightWith(m, Layers(m))

\* C03: a walk is [ok, pos, seen]; directions are consumed last to first
Directions == {"Right", "Down", "Left", "Up"}
Target(m, c, d) == CASE d = "Right" -> c + 1 [] d = "Down" -> c + m.w
                     [] d = "Left" -> c - 1  [] d = "Up" -> c - m.w
CanStep(m, c, d) ==
  /\ d \in Directions
  /\ CASE d = "Right" -> OpenRight(m, c)
       [] d = "Down"  -> OpenDown(m, c)
       [] d = "Left"  -> X(m, c) > 0 /\ OpenRight(m, c - 1)
       [] d = "Up"    -> Y(m, c) > 0 /\ OpenDown(m, c - m.w)
WalkStep(m, s, d) ==
  IF ~s.ok THEN s
  ELSE IF ~CanStep(m, s.pos, d) THEN [s EXCEPT !.ok = FALSE]
  ELSE LET t == Target(m, s.pos, d)
       IN IF t \in s.seen THEN [s EXCEPT !.ok = FALSE]
          ELSE [ok |-> TRUE, pos |-> t, seen |-> s.seen \cup {t}]
Walk(m, sol) == FoldLeft(LAMBDA s, d : WalkStep(m, s, d),
                         [ok |-> TRUE, pos |-> 0, seen |-> {0}], Reverse(sol))
SolutionRight(m, sol) ==
  LET s == Walk(m, sol) IN s.ok /\ Exits(m) = {s.pos}

\* C04: depth-first tree. Ancestors of each cell along the tree from the top-left cell;
\* meaningful for perfect mazes.
RECURSIVE AncFrom(_, _, _, _)
AncFrom(m, layers, k, anc) ==
  IF k > Len(layers) THEN anc
  ELSE LET par(c) == CHOOSE p \in Neigh(m, c) : p \in layers[k - 1]
           more == [c \in layers[k] |-> anc[par(c)] \cup {par(c)}]
       IN AncFrom(m, layers, k + 1, [c \in DOMAIN anc \cup layers[k] |->
                                       IF c \in layers[k] THEN more[c] ELSE anc[c]])
Ancestors(m, layers) == AncFrom(m, layers, 2, [c \in {0} |-> {}])
DepthFirstWith(m, layers) ==
  LET anc == Ancestors(m, layers)
  IN \A c \in Cells(m) : \A d \in GridNeigh(m.w, m.h, c) :
       d > c => (d \in anc[c] \/ c \in anc[d])
DepthFirst(m) == DepthFirstWith(m, Layers(m))

\* The set of all depth-first trees of a w x h grid, as sets of passages {a, b},
\* by exploring every order in which depth-first search may take the neighbours.
RECURSIVE DfsFrom(_, _, _, _, _)
DfsFrom(w, h, path, seen, edges) ==
  IF path = <<>> THEN {edges}
  ELSE LET c == path[Len(path)]
           open == GridNeigh(w, h, c) \ seen
       IN IF open = {} THEN DfsFrom(w, h, SubSeq(path, 1, Len(path) - 1), seen, edges)
          ELSE UNION {DfsFrom(w, h, Append(path, n), seen \cup {n}, edges \cup {{c, n}}) : n \in open}
DfsTrees(w, h) == DfsFrom(w, h, <<0>>, {0}, {})

\* Which steps occur: for grids with too many trees to see them all. A stretch of a maze is a sequence of
\* cells each of which is the one before the next on the way from the top-left cell. Depth-first search can
\* follow any way that does not cross itself, so a stretch occurs in some depth-first tree exactly when
\* the top-left cell is connected to its first cell around the others (Lemma in MCMazeCert).
RECURSIVE SimplePaths(_, _, _)
SimplePaths(w, h, len) ==
  IF len = 0 THEN {<<c>> : c \in 0..((w * h) - 1)}
  ELSE UNION {{Append(p, n) : n \in GridNeigh(w, h, p[len]) \ {p[k] : k \in 1..len}} : p \in SimplePaths(w, h, len - 1)}
RECURSIVE Spread(_, _, _, _, _)
Spread(w, h, avoid, seen, edge) ==
  IF edge = {} THEN seen
  ELSE LET next == (UNION {GridNeigh(w, h, c) : c \in edge}) \ (avoid \cup seen)
       IN Spread(w, h, avoid, seen \cup next, next)
Around(w, h, avoid) == Spread(w, h, avoid, {0}, {0})
Stretches(w, h, len) ==
  {p \in SimplePaths(w, h, len) :
     LET rest == {p[k] : k \in 2..(len + 1)} IN 0 \notin rest /\ p[1] \in Around(w, h, rest)}
\* one cell alone separates nothing (unless the grid is one cell wide), so of single steps all occur that do not enter
\* the top-left cell
Steps(w, h) == UNION {{<<c, n>> : n \in GridNeigh(w, h, c) \ {0}} : c \in 0..((w * h) - 1)}

\* The same wherever a way begins: the ways of len steps, drawn on a field of side 2 * len + 3 from its centre.
\* In a grid with room for the field, a way occurs in some depth-first tree exactly if it does not shut its own
\* beginning in (MCMazeCert compares this with Stretches); in no grid does any other way occur.
FieldSide(len) == (2 * len) + 3
RECURSIVE PathsFrom(_, _, _)
PathsFrom(side, c, len) ==
  IF len = 0 THEN {<<c>>}
  ELSE UNION {{Append(p, n) : n \in GridNeigh(side, side, p[len]) \ {p[k] : k \in 1..len}} : p \in PathsFrom(side, c, len - 1)}
NotShutIn(side, p) ==
  \/ Len(p) < 8      \* fewer than seven more cells cannot surround the first
  \/ p[1] \in Around(side, side, {p[k] : k \in 2..Len(p)})
IsWay(side, p) ==
  /\ \A k \in 1..(Len(p) - 1) : p[k + 1] \in GridNeigh(side, side, p[k])
  /\ Cardinality({p[k] : k \in 1..Len(p)}) = Len(p)
  /\ NotShutIn(side, p)
Ways(len) ==
  LET side == FieldSide(len) IN {p \in PathsFrom(side, (side * side) \div 2, len) : NotShutIn(side, p)}

\* Certificates, so that mazes of many thousand cells can be judged in linear time: whoever
\* recorded the maze adds data from which the meaning can be read off once the data is verified.
\* MCMazeCert shows that verified certificates say the same as the definitions above.
\* d[c + 1]: steps from the top-left cell to c, -1 if there is no way
Certified(m, d) ==
  /\ Len(d) = m.w * m.h /\ d[1] = 0
  /\ \A c \in Cells(m) :
       \/ d[c + 1] = -1 /\ \A n \in Neigh(m, c) : d[n + 1] = -1
       \/ /\ d[c + 1] >= 0
          /\ \A n \in Neigh(m, c) : d[n + 1] >= 0 /\ d[n + 1] - d[c + 1] \in {-1, 0, 1}
          /\ d[c + 1] = 0 => c = 0
          /\ c # 0 => \E n \in Neigh(m, c) : d[n + 1] = d[c + 1] - 1
PerfectCert(m, d) == ClosedRight(m) /\ Passages(m) = m.w * m.h - 1 /\ \A i \in 1..Len(d) : d[i] >= 0
ExitCert(m, d) ==
  /\ Cardinality(Exits(m)) = 1
  /\ \E e \in Exits(m) : \A c \in BottomRow(m) : d[c + 1] <= d[e + 1]
\* pos: the cells the solution walks through, up to the end or to a step that cannot be taken
SolStep(sol, k) == sol[Len(sol) + 1 - k]
WalkCertified(m, sol, pos) ==
  /\ pos # <<>> /\ pos[1] = 0 /\ Len(pos) <= Len(sol) + 1
  /\ \A k \in 1..(Len(pos) - 1) : CanStep(m, pos[k], SolStep(sol, k)) /\ pos[k + 1] = Target(m, pos[k], SolStep(sol, k))
  /\ Len(pos) <= Len(sol) => ~CanStep(m, pos[Len(pos)], SolStep(sol, Len(pos)))
SolutionCert(m, sol, pos) ==
  /\ Len(pos) = Len(sol) + 1
  /\ Cardinality({pos[k] : k \in 1..Len(pos)}) = Len(pos)
  /\ Exits(m) = {pos[Len(pos)]}
\* lo[c + 1] .. hi[c + 1]: an interval per cell, nested along the tree (perfect mazes with distances d)
Inside(lo, hi, c, a) == lo[a + 1] <= lo[c + 1] /\ hi[c + 1] <= hi[a + 1]
NestCertified(m, d, lo, hi) ==
  /\ Len(lo) = Len(d) /\ Len(hi) = Len(d)
  /\ \A c \in Cells(m) :
       LET kids == {n \in Neigh(m, c) : d[n + 1] = d[c + 1] + 1} IN
       /\ lo[c + 1] <= hi[c + 1]
       /\ \A k \in kids : lo[c + 1] < lo[k + 1] /\ hi[k + 1] <= hi[c + 1]
       /\ \A j, k \in kids : j # k => hi[j + 1] < lo[k + 1] \/ hi[k + 1] < lo[j + 1]
DepthFirstCert(m, lo, hi) ==
  \A c \in Cells(m) : \A n \in GridNeigh(m.w, m.h, c) :
    n > c => Inside(lo, hi, n, c) \/ Inside(lo, hi, c, n)

EdgesOf(m) == {{c, c + 1} : c \in {d \in Cells(m) : OpenRight(m, d)}} \cup
              {{c, c + m.w} : c \in {d \in Cells(m) : OpenDown(m, d)}}
=============================================================================
