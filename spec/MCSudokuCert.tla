---------------------------- MODULE MCSudokuCert ----------------------------
(* Soundness of refutations by certificate: on every puzzle made from a 4 x 4 *)
(* sudoku by clearing some cells and changing the digits of others, whatever  *)
(* choices are offered, if they refute the puzzle it has no completion.       *)
EXTENDS SudokuDefs
CONSTANTS Cleared,   \* sets of cells to clear
          Changed,   \* the cells whose digits are changed
          MaxLen
VARIABLES puzzle, choices
Base == <<1, 2, 3, 4,  3, 4, 1, 2,  2, 1, 4, 3,  4, 3, 2, 1>>
Init == /\ \E s \in Cleared : \E f \in [Changed -> 1..4] :
             puzzle = [i \in 1..16 |-> IF i \in s THEN 0 ELSE IF i \in Changed THEN f[i] ELSE Base[i]]
        /\ choices = <<>>
\* choices: the cleared cells, and digits in the units of one of them
Todo == {i \in 1..16 : puzzle[i] = 0}
Offers == {i - 1 : i \in Todo} \cup
           UNION {{16 + (4 * u) + d - 1 : d \in 1..4} : u \in {k \in 0..11 : The(Todo) \in UnitSeq4[k + 1]}}
Next == Len(choices) < MaxLen /\ \E c \in Offers : choices' = Append(choices, c) /\ UNCHANGED puzzle
Spec == Init /\ [][Next]_<<puzzle, choices>>
Sound == Refuted(2, puzzle, choices) => ~Solvable(2, puzzle)
\* and there is one for each that has no completion, if it is allowed enough choices
Depth1 == {<<>>} \cup {<<c>> : c \in 0..63}
Complete == (choices = <<>> /\ Cardinality(Todo) = 1) => (~Solvable(2, puzzle) <=> \E c \in Depth1 : Refuted(2, puzzle, c))
=============================================================================
