----------------------------- MODULE CoverSearch -----------------------------
(***************************************************************************)
(* The exact-cover engine as a state machine: rows are forced, then a      *)
(* depth-first search takes an open constraint with the fewest fitting     *)
(* rows and tries its rows. (What DancingLinks does with pointers.)        *)
(***************************************************************************)
EXTENDS CoverDefs, TLC

CONSTANTS Instances,    \* operator-free set of [cons, force] to explore
          AnyOrder      \* TRUE: any open constraint with fewest rows; FALSE: a fixed one
VARIABLES inst, pos, sel, replies, phase, path
vars == <<inst, pos, sel, replies, phase, path>>
cons == inst.cons
Rows(seq) == {seq[i].row : i \in 1..Len(seq)}
Chosen == sel \cup Rows(path)

Init == /\ inst \in Instances
        /\ pos = 1 /\ sel = {} /\ replies = <<>> /\ phase = "force" /\ path = <<>>

Force == /\ phase = "force" /\ pos <= Len(inst.force)
         /\ LET r == inst.force[pos] IN
              /\ replies' = Append(replies, ForceReply(cons, sel, r))
              /\ sel' = ForceEffect(cons, sel, r)
         /\ pos' = pos + 1 /\ UNCHANGED <<inst, phase, path>>
StartSolve == phase = "force" /\ pos > Len(inst.force) /\ phase' = "down" /\ UNCHANGED <<inst, pos, sel, replies, path>>

Fitting(c) == LET open == TLCEval(Open(cons, Chosen)) IN {r \in cons[c] : FitsIn(cons, open, r)}
\* descend: open a constraint (any with the fewest rows), take one of its rows
Down == /\ phase = "down"
        /\ IF Open(cons, Chosen) = {} THEN phase' = "found" /\ UNCHANGED path
           ELSE \E least \in {FewestRows(cons, Chosen)} :
                \E c \in IF AnyOrder THEN least ELSE {CHOOSE x \in least : TRUE} :
                  /\ IF Fitting(c) = {} THEN phase' = "up" /\ UNCHANGED path
                     ELSE LET r == CHOOSE x \in Fitting(c) : TRUE IN
                          /\ path' = Append(path, [row |-> r, left |-> Fitting(c) \ {r}])
                          /\ phase' = "down"
        /\ UNCHANGED <<inst, pos, sel, replies>>
\* backtrack: the last choice failed; try its next row or give it up
Up == /\ phase = "up"
      /\ IF path = <<>> THEN phase' = "failed" /\ UNCHANGED path
         ELSE LET last == path[Len(path)] IN
              IF last.left = {} THEN path' = SubSeq(path, 1, Len(path) - 1) /\ phase' = "up"
              ELSE LET r == CHOOSE x \in last.left : TRUE IN
                   /\ path' = [path EXCEPT ![Len(path)] = [row |-> r, left |-> last.left \ {r}]]
                   /\ phase' = "down"
      /\ UNCHANGED <<inst, pos, sel, replies>>
Next == Force \/ StartSolve \/ Down \/ Up
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* forced rows never overlap; a result is a cover containing them; failure means there is none
ForcedDisjoint == \A r \in sel, s \in sel : r # s => Hits(cons, r) \cap Hits(cons, s) = {}
FoundRight == phase = "found" => IsCover(cons, Chosen) /\ sel \subseteq Chosen
FailedRight == phase = "failed" => ~CoverExists(cons, sel)
Terminates == <>(phase \in {"found", "failed"})
=============================================================================
