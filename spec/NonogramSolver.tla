--------------------------- MODULE NonogramSolver ---------------------------
(***************************************************************************)
(* The nonogram solver as a state machine: line reasoning on any line that *)
(* still yields marks (in any order, or in a fixed one), until nothing     *)
(* changes; then the first blank square is tried filled, and if that leads *)
(* to a contradiction, blocked.                                            *)
(***************************************************************************)
EXTENDS NonogramDefs
CONSTANTS Shapes, AnyLine, WithZero
VARIABLES col, row, grid, stack, phase
vars == <<col, row, grid, stack, phase>>
W == Len(col)
H == Len(row)

\* all rules of a line of length n that fit, and one that does not
Rules(n) == {Runs(l) : l \in [1..n -> {0, 1}]} \cup {<<n + 1>>} \cup (IF WithZero THEN {<<0>>, <<0, 1>>} ELSE {})
Init == /\ \E s \in Shapes : col \in [1..s[1] -> Rules(s[2])] /\ row \in [1..s[2] -> Rules(s[1])]
        /\ grid = Zeros(W * H) /\ stack = <<>> /\ phase = "lines"

\* lines are numbered: columns 1..W, rows W+1..W+H
MarksOf(g, k) == IF k <= W THEN ColLine(g, W, H, k) ELSE RowLine(g, W, k - W)
RuleOf(k) == IF k <= W THEN col[k] ELSE row[k - W]
Deduced(g, k) == Deduce(RuleOf(k), MarksOf(g, k))
PutLine(g, k, l) == [i \in 1..(W * H) |->
  LET x == ((i - 1) % W) + 1  y == ((i - 1) \div W) + 1 IN
  IF k <= W THEN IF x = k THEN l[y] ELSE g[i] ELSE IF y = k - W THEN l[x] ELSE g[i]]
\* lines with news: new marks, or a contradiction
News(g) == {k \in 1..(W + H) : Deduced(g, k) # MarksOf(g, k)}

Line == /\ phase = "lines"
        /\ \E news \in {News(grid)} :
           IF news = {} THEN /\ phase' = IF \E i \in 1..Len(grid) : grid[i] = Blank THEN "guess" ELSE "found"
                             /\ UNCHANGED grid
           ELSE \E k \in IF AnyLine THEN news ELSE {CHOOSE k \in news : \A j \in news : k <= j} :
                LET d == Deduced(grid, k) IN
                IF d = <<>> THEN phase' = "contradiction" /\ UNCHANGED grid
                ELSE grid' = PutLine(grid, k, d) /\ UNCHANGED phase
        /\ UNCHANGED <<col, row, stack>>
FirstBlank(g) == CHOOSE i \in 1..Len(g) : g[i] = Blank /\ \A j \in 1..(i - 1) : g[j] # Blank
Guess == /\ phase = "guess"
         /\ stack' = Append(stack, [at |-> FirstBlank(grid), grid |-> grid, second |-> FALSE])
         /\ grid' = [grid EXCEPT ![FirstBlank(grid)] = Filled]
         /\ phase' = "lines" /\ UNCHANGED <<col, row>>
Back == /\ phase = "contradiction"
        /\ IF stack = <<>> THEN phase' = "failed" /\ UNCHANGED <<grid, stack>>
           ELSE LET top == stack[Len(stack)] IN
                IF top.second THEN stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<grid, phase>>
                ELSE /\ grid' = [top.grid EXCEPT ![top.at] = Blocked]
                     /\ stack' = [stack EXCEPT ![Len(stack)].second = TRUE]
                     /\ phase' = "lines"
        /\ UNCHANGED <<col, row>>
Next == Line \/ Guess \/ Back
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Result == [i \in 1..Len(grid) |-> IF grid[i] = Filled THEN 1 ELSE 0]
FoundRight == phase = "found" => Satisfies(col, row, Result)
FailedRight == phase = "failed" => ~Solvable2(col, row)
\* before any guess, marks hold in every solution: with the opposite mark there is none
Opposite(v) == IF v = Filled THEN Blocked ELSE Filled
MarksSound == stack = <<>> /\ phase \in {"lines", "guess"} =>
  \A i \in 1..Len(grid) : grid[i] # Blank => ~Fillable(col, row, [Zeros(W * H) EXCEPT ![i] = Opposite(grid[i])])
ContradictionSound == stack = <<>> /\ phase = "contradiction" => ~Solvable2(col, row)
\* the search used to judge recorded calls agrees with the definition
SearchAgrees == phase = "lines" /\ stack = <<>> /\ grid = Zeros(W * H) =>
  (Solvable2(col, row) <=> \E g \in [1..(W * H) -> {0, 1}] : Satisfies(col, row, g))
EvidentRight == Evident(col, row) => ~Solvable2(col, row)
Terminates == <>(phase \in {"found", "failed"})
=============================================================================
