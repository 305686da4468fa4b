------------------------- MODULE MCNonogramClosure -------------------------
(* Exact reasoning about lines and grids, against the definitions: for every  *)
(* rule and marking of a line, and every puzzle and marking of a small grid.  *)
EXTENDS NonogramDefs
CONSTANTS MaxLen, W, H
VARIABLES kind, col, row, marks
vars == <<kind, col, row, marks>>

RulesOf(n) == {r \in UNION {[1..k -> 1..n] : k \in 0..((n + 1) \div 2)} : Needs(r) <= n + 1}
Init ==
  \/ /\ kind = "line" /\ col = <<>> /\ row = <<>>
     /\ \E n \in 1..MaxLen : marks \in [1..n -> 0..2]
  \/ /\ kind = "grid"
     /\ col \in [1..W -> RulesOf(H)] /\ row \in [1..H -> RulesOf(W)]
     /\ marks = <<>>
\* the parameters are chosen in two steps, so that the work is spread over states
Next == \/ /\ kind = "line" /\ row = <<>> /\ kind' = "line2"
           /\ \E r \in RulesOf(Len(marks)) : row' = <<r>>
           /\ UNCHANGED <<col, marks>>
        \/ /\ kind = "grid" /\ kind' = "grid2"
           /\ marks' \in [1..(W * H) -> 0..2]
           /\ UNCHANGED <<col, row>>
Spec == Init /\ [][Next]_vars

LineMeaning ==
  kind = "line2" =>
    LET P == Placements(row[1], marks)
        c == LineClosure(Blocks(row[1]), marks)
    IN IF P = {} THEN c = Contradiction
       ELSE c = [i \in 1..Len(marks) |-> IF \A l \in P : l[i] = 1 THEN Filled ELSE IF \A l \in P : l[i] = 0 THEN Blocked ELSE Blank]
\* all fillings that satisfy the rules and agree with the marks
Fillings == {g \in [1..(W * H) -> {0, 1}] : LineFits(g, marks) /\ Satisfies(col, row, g)}
GridMeaning ==
  kind = "grid2" =>
    \E F \in {Fillings} : \E c \in {Close(col, row, marks)} :
      /\ c = Contradiction => F = {}
      /\ c # Contradiction => \A g \in F : LineFits(g, c)
      /\ (c # Contradiction /\ \A i \in 1..Len(c) : c[i] # Blank) => F = {[i \in 1..Len(c) |-> IF c[i] = Filled THEN 1 ELSE 0]}
      /\ SolveBy(col, row, marks) = (F # {})
      /\ Fillable(col, row, marks) = (F # {})
=============================================================================
