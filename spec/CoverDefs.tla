------------------------------ MODULE CoverDefs ------------------------------
(* Exact cover (C15): constraints are a sequence of sets of row numbers.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

AllRows(cons) == UNION {cons[c] : c \in DOMAIN cons}
Hits(cons, r) == {c \in DOMAIN cons : r \in cons[c]}
Highest(cons) == IF AllRows(cons) = {} THEN -1 ELSE CHOOSE r \in AllRows(cons) : \A s \in AllRows(cons) : s <= r
IsCover(cons, sel) == /\ sel \subseteq AllRows(cons)
                      /\ \A c \in DOMAIN cons : Cardinality(cons[c] \cap sel) = 1
Open(cons, sel) == {c \in DOMAIN cons : cons[c] \cap sel = {}}
FitsIn(cons, open, r) == \A c \in DOMAIN cons : r \in cons[c] => c \in open
Fits(cons, sel, r) == Hits(cons, r) # {} /\ Hits(cons, r) \subseteq Open(cons, sel)

\* forcing row r when rows sel are forced already
ForceReply(cons, sel, r) ==
  IF r > Highest(cons) THEN "IndexError" ELSE IF ~Fits(cons, sel, r) THEN "InvalidRow" ELSE "Ok"
ForceEffect(cons, sel, r) == IF ForceReply(cons, sel, r) = "Ok" THEN sel \cup {r} ELSE sel

\* the open constraints with the fewest rows that still fit
FewestRows(cons, sel) ==
  LET open == TLCEval(Open(cons, sel))
      fit == TLCEval([c \in open |-> Cardinality({r \in cons[c] : FitsIn(cons, open, r)})])
      n == CHOOSE k \in 0..Cardinality(AllRows(cons)) : (\E c \in open : fit[c] = k) /\ \A c \in open : fit[c] >= k
  IN {c \in open : fit[c] = n}

\* can sel be extended to a cover? By the constraint with the fewest fitting rows.
RECURSIVE CoverExists(_, _)
CoverExists(cons, sel) ==
  LET open == TLCEval(Open(cons, sel))
      fit == TLCEval([c \in open |-> {r \in cons[c] : FitsIn(cons, open, r)}])
  IN IF open = {} THEN TRUE
     ELSE LET c == CHOOSE a \in open : \A b \in open : Cardinality(fit[a]) <= Cardinality(fit[b])
          IN \E r \in fit[c] : CoverExists(cons, sel \cup {r})
\* the same by definition, for small instances
CoverExistsDef(cons, sel) == \E s \in SUBSET AllRows(cons) : sel \subseteq s /\ IsCover(cons, s)
=============================================================================
