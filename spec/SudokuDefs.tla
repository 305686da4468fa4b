----------------------------- MODULE SudokuDefs -----------------------------
(***************************************************************************)
(* Sudoku of box size b (side b*b): grids are sequences of 0..b*b (0 empty)*)
(* row by row. Used with b = 3 for the code and b = 2 in the design model. *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

Side(b) == b * b
CellIx(b) == 1..(b * b * b * b)
RowOf(b, i) == (i - 1) \div Side(b)
ColOf(b, i) == (i - 1) % Side(b)
BoxOf(b, i) == (RowOf(b, i) \div b) * b + ColOf(b, i) \div b
Sees(b, i, j) == i # j /\ (RowOf(b, i) = RowOf(b, j) \/ ColOf(b, i) = ColOf(b, j) \/ BoxOf(b, i) = BoxOf(b, j))

\* the cells a cell sees, tabulated once (TLC evaluates such definitions in advance, but not through TLCEval)
Peers9 == [i \in CellIx(3) |-> {j \in CellIx(3) : Sees(3, i, j)}]
Peers4 == [i \in CellIx(2) |-> {j \in CellIx(2) : Sees(2, i, j)}]
Peers(b) == IF b = 3 THEN Peers9 ELSE Peers4

Units(b) == {{i \in CellIx(b) : RowOf(b, i) = n} : n \in 0..(Side(b) - 1)} \cup
            {{i \in CellIx(b) : ColOf(b, i) = n} : n \in 0..(Side(b) - 1)} \cup
            {{i \in CellIx(b) : BoxOf(b, i) = n} : n \in 0..(Side(b) - 1)}
Units9 == Units(3)
Units4 == Units(2)
UnitsOf(b) == IF b = 3 THEN Units9 ELSE Units4

\* C09: every row, column and box holds every digit exactly once
Valid(b, g) ==
  /\ Len(g) = b * b * b * b
  /\ \A i \in CellIx(b) : g[i] \in 1..Side(b)
  /\ \A u \in UnitsOf(b) : {g[i] : i \in u} = 1..Side(b)
Agrees(p, g) == \A i \in 1..Len(p) : p[i] # 0 => g[i] = p[i]
Completes(b, p, g) == Valid(b, g) /\ Agrees(p, g)

\* The givens contradict each other directly
Clash(b, p) == \E i \in CellIx(b) : p[i] # 0 /\ \E j \in Peers(b)[i] : p[j] = p[i]

\* Is there a completion? Keep for every cell the digits it may still hold; fill the cell with the fewest, or, if all
\* have several, place a digit in a unit where it has the fewest places left.
Candidates(b, p) == TLCEval([i \in CellIx(b) |->
  IF p[i] # 0 THEN {p[i]} ELSE (1..Side(b)) \ {p[j] : j \in Peers(b)[i]}])
UnitSeq(b) == [k \in 1..(3 * Side(b)) |->
  IF k <= Side(b) THEN {i \in CellIx(b) : RowOf(b, i) = k - 1}
  ELSE IF k <= 2 * Side(b) THEN {i \in CellIx(b) : ColOf(b, i) = k - Side(b) - 1}
  ELSE {i \in CellIx(b) : BoxOf(b, i) = k - 2 * Side(b) - 1}]
UnitSeq9 == UnitSeq(3)
UnitSeq4 == UnitSeq(2)
UnitsInOrder(b) == IF b = 3 THEN UnitSeq9 ELSE UnitSeq4
\* Every choice is bound by a quantifier over a singleton rather than by LET, so that TLC evaluates it once.
Fix(b, cand, todo, i, v) == TLCEval([j \in CellIx(b) |->
  IF j = i THEN {v} ELSE IF j \in todo /\ j \in Peers(b)[i] THEN cand[j] \ {v} ELSE cand[j]])
Least(f) == CHOOSE x \in DOMAIN f : \A y \in DOMAIN f : f[x] <= f[y]
RECURSIVE Search(_, _, _)
Search(b, cand, todo) ==
  IF todo = {} THEN TRUE
  ELSE \E i \in {Least(TLCEval([c \in todo |-> Cardinality(cand[c])]))} :
       IF Cardinality(cand[i]) <= 1
       THEN \E v \in cand[i] : \E next \in {Fix(b, cand, todo, i, v)} : \E rest \in {todo \ {i}} : Search(b, next, rest)
       ELSE \E places \in {TLCEval([k \in 1..(3 * Side(b) * Side(b)) |->
                              LET u == UnitsInOrder(b)[(k - 1) \div Side(b) + 1]
                                  d == ((k - 1) % Side(b)) + 1
                              IN IF \E c \in u \ todo : d \in cand[c] THEN 0..99      \* it has its place
                                 ELSE {c \in u \cap todo : d \in cand[c]}])} :
            \E k \in {Least(TLCEval([x \in DOMAIN places |-> Cardinality(places[x])]))} :
            IF Cardinality(places[k]) < Cardinality(cand[i])
            THEN \E c \in places[k] : \E next \in {Fix(b, cand, todo, c, ((k - 1) % Side(b)) + 1)} : \E rest \in {todo \ {c}} :
                   Search(b, next, rest)
            ELSE \E v \in cand[i] : \E next \in {Fix(b, cand, todo, i, v)} : \E rest \in {todo \ {i}} : Search(b, next, rest)
Solvable(b, p) == /\ \A i \in CellIx(b) : p[i] \in 0..Side(b)
                  /\ ~Clash(b, p)
                  /\ \E cand \in {Candidates(b, p)} : \E todo \in {{i \in CellIx(b) : p[i] = 0}} :
                       Search(b, cand, todo)

\* The same by certificate, for puzzles whose search is long: the choices made on the way, in the order in which the
\* search makes them. Choice i - 1 for cell i: one of the digits it may hold is right. Choice n + u * s + d - 1 (n cells,
\* side s) for digit d in unit u + 1: one of its places there is right. All alternatives of a choice are refuted one after
\* the other; a choice without alternatives is a contradiction. The operators return the position in the certificate
\* behind the refutation, 0 if it refutes nothing.
UnitCells(b) == [k \in 1..(3 * Side(b)) |-> SetToSortSeq(UnitSeq(b)[k], <)]
UnitCells9 == UnitCells(3)
UnitCells4 == UnitCells(2)
UnitCellsOf(b) == IF b = 3 THEN UnitCells9 ELSE UnitCells4
Upto(n) == [k \in 1..n |-> k]
The(S) == CHOOSE x \in S : TRUE
RECURSIVE Refute(_, _, _, _, _)
Refute(b, cand, todo, cert, k) ==
  IF k > Len(cert) THEN 0
  ELSE LET n == Side(b) * Side(b)
           c == cert[k]
       IN IF c < n
          THEN IF c + 1 \notin todo THEN 0
               ELSE FoldLeft(LAMBDA at, v :
                      IF at = 0 \/ v \notin cand[c + 1] THEN at
                      ELSE The({Refute(b, next, rest, cert, at) : next \in {Fix(b, cand, todo, c + 1, v)}, rest \in {todo \ {c + 1}}}),
                      k + 1, Upto(Side(b)))
          ELSE LET u == (c - n) \div Side(b)
                   d == ((c - n) % Side(b)) + 1
               IN IF u >= 3 * Side(b) \/ \E i \in UnitsInOrder(b)[u + 1] \ todo : d \in cand[i] THEN 0
                  ELSE FoldLeft(LAMBDA at, i :
                         IF at = 0 \/ i \notin todo \/ d \notin cand[i] THEN at
                         ELSE The({Refute(b, next, rest, cert, at) : next \in {Fix(b, cand, todo, i, d)}, rest \in {todo \ {i}}}),
                         k + 1, UnitCellsOf(b)[u + 1])
Refuted(b, p, cert) ==
  /\ \A i \in CellIx(b) : p[i] \in 0..Side(b)
  /\ \/ Clash(b, p)
     \/ \E cand \in {Candidates(b, p)} : \E todo \in {{i \in CellIx(b) : p[i] = 0}} : \E c \in {cert} :
          Refute(b, cand, todo, c, 1) # 0
=============================================================================
