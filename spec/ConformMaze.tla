---------------------------- MODULE ConformMaze ----------------------------
(* Which outcomes of the maze operations the specification explains. *)
EXTENDS MazeDefs

MazeOps == {"C01", "C02", "C03", "C04", "C04support", "C04steps", "C04ways", "C04apart", "C04fresh"}

MazeOf(e, o) == [w |-> e.w, h |-> e.h, right |-> o.right, down |-> o.down]

\* the outcome is data of the right shape; everything else is judged per property
HasMaze(e) == e.out.k = "ok" /\ WellFormed(MazeOf(e, e.out))

\* A maze whose cells are not all reachable has no layer for some cells; the properties about
\* exit, solution and depth-first order are stated for cells that are reachable, so they
\* first ask that the bottom row / the whole grid is reached.
AllReached(m, layers) == Reached(layers) = m.w * m.h

Distances(e) == "dist" \in DOMAIN e /\ Certified(MazeOf(e, e.out), e.dist)
Cells01(e) == LET m == MazeOf(e, e.out) IN IF Distances(e) THEN PerfectCert(m, e.dist) ELSE Perfect(m)
Cells02(e) ==
  LET m == MazeOf(e, e.out) IN
  IF Distances(e) THEN (\A i \in 1..Len(e.dist) : e.dist[i] >= 0) /\ ClosedRight(m) /\ ExitCert(m, e.dist)
  ELSE LET l == Layers(m) IN AllReached(m, l) /\ ClosedRight(m) /\ ExitRightWith(m, l)
Cells03(e) ==
  LET m == MazeOf(e, e.out) IN
  IF "pos" \in DOMAIN e /\ WalkCertified(m, e.out.sol, e.pos) THEN SolutionCert(m, e.out.sol, e.pos)
  ELSE SolutionRight(m, e.out.sol)
Cells04(e) ==
  LET m == MazeOf(e, e.out) IN
  IF Distances(e) THEN
    /\ PerfectCert(m, e.dist)
    /\ IF "lo" \in DOMAIN e /\ NestCertified(m, e.dist, e.lo, e.hi) THEN DepthFirstCert(m, e.lo, e.hi) ELSE DepthFirst(m)
  ELSE LET l == Layers(m) IN PerfectWith(m, l) /\ DepthFirstWith(m, l)

MazeExplained(e) ==
  CASE e.op = "C01" -> HasMaze(e) /\ Cells01(e)
    [] e.op = "C02" -> HasMaze(e) /\ Cells02(e)
    [] e.op = "C03" -> HasMaze(e) /\ Cells03(e)
    [] e.op = "C04" -> HasMaze(e) /\ Cells04(e)
    \* many runs on one grid: the stretches seen are the stretches of depth-first trees
    [] e.op = "C04steps" ->
         /\ e.out.k = "ok" /\ e.out.bad = 0
         /\ {e.out.seen[k] : k \in 1..Len(e.out.seen)} =
              (IF e.len = 1 /\ e.w >= 2 /\ e.h >= 2 THEN Steps(e.w, e.h) ELSE Stretches(e.w, e.h, e.len))
    \* many runs on one grid: the ways seen, wherever they begin, are those of depth-first trees
    [] e.op = "C04ways" ->
         /\ e.out.k = "ok" /\ e.out.bad = 0
         /\ IF "want" \in DOMAIN e
            THEN /\ Len(e.out.counts) = Len(e.want)
                 /\ \A k \in 1..Len(e.want) : IsWay(FieldSide(e.len), e.want[k]) => e.out.counts[k] > 0
            ELSE {e.out.seen[k] : k \in 1..Len(e.out.seen)} = Ways(e.len)
    \* Many runs on one grid so large that no depth-first tree is likely to come twice when every choice is free:
    \* none does, however the runs are spread over threads ...
    [] e.op = "C04apart" -> e.out.k = "ok" /\ e.out.different = e.out.made
    \* ... or over processes of their own
    [] e.op = "C04fresh" ->
         /\ \A k \in 1..Len(e.out) : e.out[k].k = "ok" /\ WellFormed(MazeOf(e, e.out[k]))
         /\ \A j, k \in 1..Len(e.out) : j < k => EdgesOf(MazeOf(e, e.out[j])) # EdgesOf(MazeOf(e, e.out[k]))
    \* many runs on one small grid: the set of mazes seen is the set of depth-first trees
    [] e.op = "C04support" ->
         /\ e.out.k = "ok"
         /\ \A k \in 1..Len(e.out.seen) : WellFormed(MazeOf(e, e.out.seen[k]))
         /\ {EdgesOf(MazeOf(e, e.out.seen[k])) : k \in 1..Len(e.out.seen)} = DfsTrees(e.w, e.h)
=============================================================================
