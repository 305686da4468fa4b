----------------------------- MODULE MCParsers -----------------------------
(* Both parsers as machines fed one character at a time; at every prefix the *)
(* machine's verdict is the declarative one.                                 *)
EXTENDS Parsers
CONSTANTS MaxLen, Bound, SudokuLen
Alphabet == {48, 50, 57, Comma, Semicolon, Plus, 120, 1635}    \* 0 2 9 , ; + x and an Arabic digit
VARIABLES text, rules, sud
Init == text = <<>> /\ rules = [p \in BOOLEAN |-> RulesStart] /\ sud = SudokuStart
Next == /\ Len(text) < MaxLen
        /\ \E c \in Alphabet : /\ text' = Append(text, c)
                               /\ rules' = [p \in BOOLEAN |-> RulesRead(rules[p], c, OfNat(Bound), p)]
                               /\ sud' = SudokuRead(sud, c)
Spec == Init /\ [][Next]_<<text, rules, sud>>
RulesAgree == \A p \in BOOLEAN : RulesDone(rules[p], OfNat(Bound), p) = RulesText(text, OfNat(Bound), p)
SudokuAgrees == SudokuDone(sud, SudokuLen) = SudokuText(text, SudokuLen)
\* an accepted text has one line more than semicolons, and no line is over the bound
Shape == \A p \in BOOLEAN : LET r == RulesText(text, OfNat(Bound), p) IN
           r.k = "ok" => /\ Len(r.v) = 1 + Cardinality({i \in 1..Len(text) : text[i] = Semicolon})
                         /\ \A i \in 1..Len(r.v) : ToNat(Total(r.v[i])) <= Bound
\* decimal arithmetic is arithmetic
ASSUME \A a \in 0..120, b \in 0..120 : /\ ToNat(Add(OfNat(a), OfNat(b))) = a + b
                                       /\ Greater(OfNat(a), OfNat(b)) <=> a > b
=============================================================================
