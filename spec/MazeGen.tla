------------------------------ MODULE MazeGen ------------------------------
(***************************************************************************)
(* Design model of maze generation: src/puzzles/maze/recursive_backtrack.rs*)
(* (phase "carve", one action per random pick of a direction or pop of the *)
(* path) followed by create_maze in src/puzzles/maze/mod.rs (phase "bfs",  *)
(* one action per cell taken from the queue; phase "trace", one action per *)
(* step of walking back from the exit).                                    *)
(***************************************************************************)
EXTENDS MazeDefs, TLC

CONSTANTS Shapes,  \* set of <<width, height>>
          Reduce   \* TRUE: take picks that lead nowhere first, in a fixed order. A direction that leads
                   \* off the grid or into the same set does so forever and its pick changes nothing but
                   \* the set of untried directions (and compresses paths), so this loses no maze.

UF == INSTANCE UnionFind WITH MaxElems <- 0, es <- <<>>, cl <- <<>>, last <- <<>>

VARIABLES m,       \* the maze: [w, h, right, down]
          uf,      \* the union-find element array
          path,    \* stack of cells
          visit,   \* visit[c + 1]: directions not tried yet at c
          phase, queue, tree, found, cur, sol
vars == <<m, uf, path, visit, phase, queue, tree, found, cur, sol>>

Size == m.w * m.h
Unvisited == -2
StartNode == -1

Init == \E s \in Shapes :
  LET n == s[1] * s[2] IN
  /\ m = [w |-> s[1], h |-> s[2], right |-> [i \in 1..n |-> 1], down |-> [i \in 1..n |-> 1]]
  /\ uf = [i \in 1..n |-> UF!NewElem]
  /\ path = <<0>>
  /\ visit = [i \in 1..n |-> Directions]
  /\ phase = "carve"
  /\ queue = <<>> /\ tree = <<>> /\ found = 0 /\ cur = 0 /\ sol = <<>>

Top == path[Len(path)]
AtEdge(c, d) == CASE d = "Right" -> c % m.w = m.w - 1
                  [] d = "Down"  -> c >= m.w * (m.h - 1)
                  [] d = "Left"  -> c % m.w = 0
                  [] d = "Up"    -> c < m.w
Same(u, a, b) == UF!Root(u, a) = UF!Root(u, b)
Carved(c, d) == CASE d = "Right" -> [m EXCEPT !.right[c + 1] = 0]
                  [] d = "Down"  -> [m EXCEPT !.down[c + 1] = 0]
                  [] d = "Left"  -> [m EXCEPT !.right[c] = 0]
                  [] d = "Up"    -> [m EXCEPT !.down[c - m.w + 1] = 0]

LeadsNowhere(d) == AtEdge(Top, d) \/ Same(uf, Top, Target(m, Top, d))

\* one random pick of choose_random
Pick(d) ==
  /\ phase = "carve" /\ path # <<>>
  /\ d \in visit[Top + 1]
  /\ Reduce => LET idle == {e \in visit[Top + 1] : LeadsNowhere(e)}
               IN idle # {} => d = CHOOSE e \in idle : TRUE
  /\ visit' = [visit EXCEPT ![Top + 1] = @ \ {d}]
  /\ IF AtEdge(Top, d) THEN UNCHANGED <<m, uf, path>>
     ELSE LET n  == Target(m, Top, d)
              u1 == UF!Compress(UF!Compress(uf, Top), n)
          IN IF Same(uf, Top, n) THEN uf' = u1 /\ UNCHANGED <<m, path>>
             ELSE /\ m' = Carved(Top, d)
                  /\ uf' = UF!UnionOp(u1, Top, n)
                  /\ path' = Append(path, n)
  /\ UNCHANGED <<phase, queue, tree, found, cur, sol>>

Pop ==
  /\ phase = "carve" /\ path # <<>> /\ visit[Top + 1] = {}
  /\ path' = SubSeq(path, 1, Len(path) - 1)
  /\ UNCHANGED <<m, uf, visit, phase, queue, tree, found, cur, sol>>

StartBfs ==
  /\ phase = "carve" /\ path = <<>>
  /\ phase' = "bfs"
  /\ tree' = [i \in 1..Size |-> IF i = 1 THEN StartNode ELSE Unvisited]
  /\ queue' = <<0>>
  /\ UNCHANGED <<m, uf, path, visit, found, cur, sol>>

\* the four neighbour tests of one iteration, in the code's order
Visit(t, q, c, n) == IF t[n + 1] = Unvisited THEN <<[t EXCEPT ![n + 1] = c], Append(q, n)>> ELSE <<t, q>>
Explore(c) ==
  LET s0 == <<tree, Tail(queue)>>
      s1 == IF m.right[c + 1] = 0 THEN Visit(s0[1], s0[2], c, c + 1) ELSE s0
      s2 == IF m.down[c + 1] = 0 THEN Visit(s1[1], s1[2], c, c + m.w) ELSE s1
      s3 == IF c >= 1 /\ m.right[c] = 0 THEN Visit(s2[1], s2[2], c, c - 1) ELSE s2
      s4 == IF c >= m.w /\ m.down[c - m.w + 1] = 0 THEN Visit(s3[1], s3[2], c, c - m.w) ELSE s3
  IN s4

Bfs ==
  /\ phase = "bfs" /\ queue # <<>>
  /\ LET c == Head(queue)
         f == IF c \div m.w = m.h - 1 THEN found + 1 ELSE found
     IN /\ found' = f
        /\ IF c \div m.w = m.h - 1 /\ f = m.w
           THEN /\ m' = [m EXCEPT !.down[c + 1] = 0]
                /\ cur' = c /\ phase' = "trace"
                /\ UNCHANGED <<queue, tree>>
           ELSE /\ LET s == Explore(c) IN tree' = s[1] /\ queue' = s[2]
                /\ UNCHANGED <<m, cur, phase>>
  /\ UNCHANGED <<uf, path, visit, sol>>

\* naming the step from the parent to the current cell by index difference
StepName(parent, c) ==
  IF parent = c + m.w THEN "Up" ELSE IF parent + m.w = c THEN "Down"
  ELSE IF parent = c + 1 THEN "Left" ELSE "Right"
TraceBack ==
  /\ phase = "trace"
  /\ IF tree[cur + 1] = StartNode
     THEN phase' = "done" /\ UNCHANGED <<cur, sol>>
     ELSE /\ sol' = Append(sol, StepName(tree[cur + 1], cur))
          /\ cur' = tree[cur + 1]
          /\ UNCHANGED phase
  /\ UNCHANGED <<m, uf, path, visit, queue, tree, found>>

Done == phase = "done" /\ UNCHANGED vars

Next == (\E d \in Directions : Pick(d)) \/ Pop \/ StartBfs \/ Bfs \/ TraceBack \/ Done
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

\* ------------------------------ properties ------------------------------
\* while carving: no index leaves the grid, the passages are a forest whose components
\* are the union-find classes
Forest == phase = "carve" =>
  /\ \A i \in 1..Len(path) : path[i] \in Cells(m)
  /\ ClosedRight(m)
  /\ LET roots == {UF!Root(uf, c) : c \in Cells(m)}
     IN /\ Passages(m) = Size - Cardinality(roots)
        /\ \A c \in Cells(m) : \A n \in Neigh(m, c) : Same(uf, c, n)
\* the stack is a path of open passages, as depth-first search needs
StackIsPath == phase = "carve" =>
  \A i \in 1..(Len(path) - 1) : path[i + 1] \in Neigh(m, path[i])
CarvedRight == phase = "bfs" => Perfect(m) /\ DepthFirst(m)
\* create_maze's expect("the traversal should be non-empty") cannot fail
QueueNeverEmpty == phase = "bfs" => queue # <<>>
Final == phase = "done" =>
  /\ WellFormed(m) /\ Perfect(m) /\ ExitRight(m) /\ SolutionRight(m, sol) /\ DepthFirst(m)
  /\ EdgesOf(m) \in DfsTrees(m.w, m.h)
\* C04: the terminal states are exactly the depth-first trees. They are collected in a register
\* (so -workers 1) and compared after the search.
Terminates == <>(phase = "done")

Collect == phase = "done" => TLCSet(42, TLCGet(42) \cup {<<m.w, m.h, EdgesOf(m)>>})
AllDfs == UNION {{<<s[1], s[2], t>> : t \in DfsTrees(s[1], s[2])} : s \in Shapes}
InitReg == TLCSet(42, {})
ASSUME InitReg
AllReached == TLCGet(42) = AllDfs
=============================================================================
