------------------------------ MODULE MCSudoku ------------------------------
(***************************************************************************)
(* Sudoku as exact cover. Row (i, v) of the cover problem says "cell i     *)
(* holds v", numbered (i - 1) * n + v - 1. The design model runs the engine*)
(* on 4 x 4 sudokus with few givens; the lemmas check the table of         *)
(* constraints for 4 x 4 and 9 x 9.                                        *)
(***************************************************************************)
EXTENDS SudokuDefs, CoverSearch
CONSTANTS MaxGivens

\* the table as the code builds it: cell, row, column and box constraints
Table(b) ==
  LET n == Side(b)
      at(x) == LET i == x % (n * n)  IN
        CASE x \div (n * n) = 0 -> {i * n + k : k \in 0..(n - 1)}
          [] x \div (n * n) = 1 -> {(i % n) + k * n + (i \div n) * n * n : k \in 0..(n - 1)}
          [] x \div (n * n) = 2 -> {i + k * n * n : k \in 0..(n - 1)}
          [] OTHER -> {(i % n) + (k % b) * n + (k \div b) * n * n + ((i % (n * b)) \div n) * b * n
                       + (i \div (n * b)) * b * n * n : k \in 0..(n - 1)}
  IN [x \in 1..(4 * n * n) |-> at(x - 1)]
RowNo(b, i, v) == (i - 1) * Side(b) + v - 1
\* the table as it should be
Wanted(b) ==
  {{RowNo(b, i, v) : v \in 1..Side(b)} : i \in CellIx(b)} \cup
  {{RowNo(b, i, v) : i \in u} : u \in UnitsOf(b), v \in 1..Side(b)}
TableLemma(b) == LET t == Table(b) IN /\ {t[x] : x \in DOMAIN t} = Wanted(b)
                                      /\ Cardinality(Wanted(b)) = Len(t)
ASSUME TableLemma(2) /\ TableLemma(3)

Table4 == Table(2)
Givens == {p \in [1..16 -> 0..4] : Cardinality({i \in 1..16 : p[i] # 0}) <= MaxGivens}
\* built up to the number of givens instead of filtered; the first given is 1 or 2
RECURSIVE Puzzles(_)
Puzzles(n) == IF n = 0 THEN {[i \in 1..16 |-> 0]}
              ELSE LET less == Puzzles(n - 1) IN
                   less \cup {[p EXCEPT ![i] = v] : p \in {q \in less : TRUE}, i \in 1..16, v \in 1..4}
Few == {p \in Puzzles(MaxGivens) : \A i \in 1..16 : p[i] # 0 => (p[i] = 1 \/ \E j \in 1..(i - 1) : p[j] # 0)}
ForceOf(p) == LET ix == SelectSeq([i \in 1..16 |-> i], LAMBDA i : p[i] # 0)
              IN TLCEval([k \in 1..Len(ix) |-> RowNo(2, ix[k], p[ix[k]])])
AllInstances == {[cons |-> Table4, force |-> ForceOf(p), p |-> p] : p \in Few}

GridOf(sel0) == [i \in 1..16 |-> IF \E v \in 1..4 : RowNo(2, i, v) \in sel0
                                THEN CHOOSE v \in 1..4 : RowNo(2, i, v) \in sel0 ELSE 0]
AllForced == \A k \in 1..Len(replies) : replies[k] = "Ok"
SolvedRight == phase = "found" /\ AllForced => Completes(2, inst.p, GridOf(Chosen))
UnsolvedRight == phase = "failed" /\ AllForced => ~Solvable(2, inst.p)
RefusedRight == phase = "down" /\ path = <<>> => (~AllForced <=> Clash(2, inst.p))
=============================================================================
