------------------------------ MODULE Parsers ------------------------------
(***************************************************************************)
(* Parsing of sudoku text (C12) and of nonogram rule text (C20, C19).      *)
(* Text is a sequence of code points. Numbers are sequences of decimal     *)
(* digits without leading zeros, because rule text may contain numbers far *)
(* beyond TLC's integers.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

Comma == 44
Semicolon == 59
Plus == 43
IsDigit(c) == c >= 48 /\ c <= 57

(********************************* Sudoku *********************************)
\* declarative: what the property says
SudokuText(s, n) ==
  LET bad == {i \in 1..Len(s) : ~IsDigit(s[i])} IN
  IF bad # {} THEN [k |-> "err", e |-> "InvalidInteger", c |-> s[CHOOSE i \in bad : \A j \in bad : i <= j]]
  ELSE IF Len(s) # n THEN [k |-> "err", e |-> "InvalidSize", n |-> Len(s)]
  ELSE [k |-> "ok", v |-> [i \in 1..n |-> s[i] - 48]]

\* operational: reading character by character
SudokuStart == [vals |-> <<>>, bad |-> -1]
SudokuRead(st, c) ==
  IF st.bad >= 0 THEN st
  ELSE IF IsDigit(c) THEN [st EXCEPT !.vals = Append(@, c - 48)]
  ELSE [st EXCEPT !.bad = c]
SudokuDone(st, n) ==
  IF st.bad >= 0 THEN [k |-> "err", e |-> "InvalidInteger", c |-> st.bad]
  ELSE IF Len(st.vals) # n THEN [k |-> "err", e |-> "InvalidSize", n |-> Len(st.vals)]
  ELSE [k |-> "ok", v |-> st.vals]

(***************************** Decimal numbers *****************************)
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 0 THEN Strip(Tail(d)) ELSE d
\* a > b
RECURSIVE GreaterFrom(_, _, _)
GreaterFrom(a, b, i) == IF i > Len(a) THEN FALSE
                        ELSE IF a[i] # b[i] THEN a[i] > b[i] ELSE GreaterFrom(a, b, i + 1)
Greater(a, b) == IF Len(a) # Len(b) THEN Len(a) > Len(b) ELSE GreaterFrom(a, b, 1)
DigitAt(a, k) == IF k > Len(a) THEN 0 ELSE a[Len(a) + 1 - k]    \* k-th from the right
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, k, carry) ==
  IF k > Len(a) /\ k > Len(b) THEN IF carry = 0 THEN <<>> ELSE <<carry>>
  ELSE LET t == DigitAt(a, k) + DigitAt(b, k) + carry
       IN AddFrom(a, b, k + 1, t \div 10) \o <<t % 10>>
Add(a, b) == Strip(AddFrom(a, b, 1, 0))
RECURSIVE OfNat(_)
OfNat(n) == IF n < 10 THEN <<n>> ELSE Append(OfNat(n \div 10), n % 10)
RECURSIVE ToNat(_)
ToNat(d) == IF d = <<>> THEN 0 ELSE 10 * ToNat(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)]
\* the largest number a rule can hold: 2^64 - 1
MaxWord == <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>

(****************************** Nonogram rules *****************************)
\* declarative: split at every separator
RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, sep, i, cur) ==
  IF i > Len(s) THEN <<cur>>
  ELSE IF s[i] = sep THEN <<cur>> \o SplitFrom(s, sep, i + 1, <<>>)
  ELSE SplitFrom(s, sep, i + 1, Append(cur, s[i]))
Split(s, sep) == SplitFrom(s, sep, 1, <<>>)

\* A token is a number if it consists of digits and fits a machine word. Whether a leading plus
\* sign is tolerated is left open (plus).
Digits(t, plus) == IF plus /\ Len(t) > 1 /\ t[1] = Plus THEN Tail(t) ELSE t
IsNumber(t, plus) ==
  LET d == Digits(t, plus) IN
  /\ Len(d) > 0 /\ \A i \in 1..Len(d) : IsDigit(d[i])
  /\ ~Greater(Strip([i \in 1..Len(d) |-> d[i] - 48]), MaxWord)
NumberOf(t, plus) == LET d == Digits(t, plus) IN Strip([i \in 1..Len(d) |-> d[i] - 48])

Total(nums) == FoldLeft(LAMBDA a, b : Add(a, b), OfNat(Len(nums) - 1), nums)
LineResult(line, bound, plus) ==
  LET ts == Split(line, Comma)
      bad == {i \in 1..Len(ts) : ~IsNumber(ts[i], plus)}
  IN IF bad # {} THEN [k |-> "err", e |-> "InvalidRule", t |-> ts[CHOOSE i \in bad : \A j \in bad : i <= j]]
     ELSE LET nums == [i \in 1..Len(ts) |-> NumberOf(ts[i], plus)]
          IN IF Greater(Total(nums), bound) THEN [k |-> "err", e |-> "InvalidRuleDimension"]
             ELSE [k |-> "ok", v |-> nums]
RulesText(s, bound, plus) ==
  LET lines == Split(s, Semicolon)
      res == [i \in 1..Len(lines) |-> LineResult(lines[i], bound, plus)]
      bad == {i \in 1..Len(res) : res[i].k = "err"}
  IN IF bad # {} THEN res[CHOOSE i \in bad : \A j \in bad : i <= j]
     ELSE [k |-> "ok", v |-> [i \in 1..Len(res) |-> res[i].v]]

\* operational: one pass over the characters, deciding each line at its end
RulesStart == [tok |-> <<>>, nums |-> <<>>, badtok |-> <<>>, isbad |-> FALSE, lines |-> <<>>, res |-> "none", err |-> <<>>]
EndToken(st, plus) ==
  IF st.isbad THEN [st EXCEPT !.tok = <<>>]
  ELSE IF IsNumber(st.tok, plus) THEN [st EXCEPT !.nums = Append(@, NumberOf(st.tok, plus)), !.tok = <<>>]
  ELSE [st EXCEPT !.isbad = TRUE, !.badtok = st.tok, !.tok = <<>>]
EndLine(st0, bound, plus) ==
  LET st == EndToken(st0, plus) IN
  IF st.isbad THEN [st EXCEPT !.res = "InvalidRule", !.err = st.badtok]
  ELSE IF Greater(Total(st.nums), bound) THEN [st EXCEPT !.res = "InvalidRuleDimension"]
  ELSE [st EXCEPT !.lines = Append(@, st.nums), !.nums = <<>>]
RulesRead(st, c, bound, plus) ==
  IF st.res # "none" THEN st
  ELSE IF c = Comma THEN EndToken(st, plus)
  ELSE IF c = Semicolon THEN EndLine(st, bound, plus)
  ELSE [st EXCEPT !.tok = Append(@, c)]
RulesDone(st0, bound, plus) ==
  LET st == IF st0.res = "none" THEN EndLine(st0, bound, plus) ELSE st0 IN
  IF st.res = "InvalidRule" THEN [k |-> "err", e |-> "InvalidRule", t |-> st.err]
  ELSE IF st.res = "InvalidRuleDimension" THEN [k |-> "err", e |-> "InvalidRuleDimension"]
  ELSE [k |-> "ok", v |-> st.lines]
=============================================================================
