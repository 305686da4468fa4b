---------------------------- MODULE NonogramLine ----------------------------
(***************************************************************************)
(* Line solving (C23) as the code does it: an automaton made from the rule *)
(* reads the line square by square, keeping for each automaton state the   *)
(* history that reached it (the self loop of a gap overrides the arrival   *)
(* from a block), and accepts when the rest of the line can be empty.      *)
(* Checked: it finds the leftmost placement consistent with the marks, and *)
(* what follows from leftmost and rightmost together holds in all of them. *)
(***************************************************************************)
EXTENDS NonogramDefs
CONSTANTS MaxLen, MaxNum
VARIABLES rule, marks, i, old, result

\* automaton: kinds of its states; index 1 = start, 2 = leading gap
Automaton(blocks) ==
  LET body == FoldLeft(LAMBDA a, n : a \o [k \in 1..n |-> "fill"] \o <<"gap">>, <<>>, blocks)
      all == <<"start", "gap">> \o body
  IN all                     \* the last gap is where it accepts
A == Automaton(Blocks(rule))
None == <<-1>>
Running == <<9>>
NoLine == <<8>>

RulesUpTo == UNION {[1..k -> 0..MaxNum] : k \in 0..((MaxLen + 1) \div 2)}
FeasibleRules(n) == {r \in RulesUpTo : Needs(r) <= n + 1}      \* one too long included
Init == /\ \E n \in 1..MaxLen : marks \in [1..n -> 0..2] /\ rule \in FeasibleRules(n)
        /\ i = 1 /\ old = [s \in 1..Len(A) |-> IF s = 1 THEN <<>> ELSE None] /\ result = Running

\* the histories after one more square (or the end, sq = 9)
Accepting == Len(A)
CanFinish(from) == \A j \in from..Len(marks) : marks[j] # Filled
Step(sq) ==
  \* arrivals at state t: its own loop wins over the arrival from t - 1 (or, from the start, the block behind the leading gap)
  [t \in 1..Len(A) |->
     LET loop == A[t] = "gap" /\ old[t] # None /\ sq # Filled
         ok == IF A[t] = "fill" THEN sq # Blocked ELSE sq # Filled
         prev == IF t > 1 /\ old[t - 1] # None /\ ok THEN Append(old[t - 1], t) ELSE None
         jump == IF t = 3 /\ old[1] # None /\ ok THEN Append(old[1], 3) ELSE None
     IN IF loop THEN Append(old[t], t) ELSE IF prev # None THEN prev ELSE jump]
\* the state before the accepting gap, if it holds a history and the rest may be empty
Finishers == {s \in {IF Len(A) = 2 THEN 1 ELSE Len(A) - 1} : old[s] # None /\ CanFinish(i)}
LineOf(hist, n) == [k \in 1..n |-> IF k <= Len(hist) /\ A[hist[k]] = "fill" THEN 1 ELSE 0]

Next == /\ result = Running
        /\ IF Finishers # {}
           THEN result' = LineOf(old[CHOOSE s \in Finishers : TRUE], Len(marks)) /\ UNCHANGED <<i, old>>
           ELSE IF i > Len(marks) THEN result' = NoLine /\ UNCHANGED <<i, old>>
           ELSE old' = Step(marks[i]) /\ i' = i + 1 /\ UNCHANGED result
        /\ UNCHANGED <<rule, marks>>
Spec == Init /\ [][Next]_<<rule, marks, i, old, result>> /\ WF_<<rule, marks, i, old, result>>(Next)

P == Placements(rule, marks)
FindsLeftmost == /\ result = NoLine => P = {}
                 /\ result \notin {NoLine, Running} => result \in P /\ IsLeftmost(result, P)
DeductionSound == i = 1 /\ P # {} =>
  LET d == Deduce(rule, marks) IN
  /\ \A l \in P : LineFits(l, d)
  /\ \A k \in 1..Len(marks) : marks[k] # Blank => d[k] = marks[k]
  /\ (\A k \in 1..Len(d) : d[k] # Blank) => Runs([k \in 1..Len(d) |-> IF d[k] = Filled THEN 1 ELSE 0]) = Blocks(rule)
=============================================================================
