---------------------------- MODULE NonogramDefs ----------------------------
(***************************************************************************)
(* Nonograms (C17, C18, C23). A rule is a sequence of numbers (a 0 means   *)
(* no block), a line a sequence of 0/1, a marked line a sequence of 0      *)
(* (blank), 1 (filled), 2 (blocked). Grids are row by row.                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

Blank == 0
Filled == 1
Blocked == 2

Blocks(rule) == SelectSeq(rule, LAMBDA n : n # 0)
\* lengths of the runs of 1 in a line
Runs(line) ==
  LET s == FoldLeft(LAMBDA a, v : IF v = 1 THEN [a EXCEPT !.run = @ + 1]
                                  ELSE IF a.run > 0 THEN [run |-> 0, out |-> Append(a.out, a.run)] ELSE a,
                    [run |-> 0, out |-> <<>>], line)
  IN IF s.run > 0 THEN Append(s.out, s.run) ELSE s.out
RowLine(g, w, y) == SubSeq(g, (y - 1) * w + 1, y * w)
ColLine(g, w, h, x) == [y \in 1..h |-> g[(y - 1) * w + x]]

\* C17
Satisfies(col, row, g) ==
  LET w == Len(col)  h == Len(row) IN
  /\ Len(g) = w * h
  /\ \A i \in 1..(w * h) : g[i] \in {0, 1}
  /\ \A x \in 1..w : Runs(ColLine(g, w, h, x)) = Blocks(col[x])
  /\ \A y \in 1..h : Runs(RowLine(g, w, y)) = Blocks(row[y])

\* All lines of length n with exactly these blocks, consistent with the marks
LineFits(line, marks) == \A i \in 1..Len(line) : marks[i] = Blank \/ (marks[i] = Filled) = (line[i] = 1)
Zeros(n) == [i \in 1..n |-> 0]
Ones(n) == [i \in 1..n |-> 1]
RECURSIVE Lines(_, _)
Lines(blocks, n) ==
  IF blocks = <<>> THEN {Zeros(n)}
  ELSE IF n < blocks[1] THEN {}
  ELSE LET b == blocks[1]
           rest == Tail(blocks)
           here == IF rest = <<>> THEN {Ones(b) \o Zeros(n - b)}
                   ELSE IF n <= b THEN {}
                   ELSE {Ones(b) \o <<0>> \o t : t \in Lines(rest, n - b - 1)}
       IN here \cup (IF n > b THEN {<<0>> \o t : t \in Lines(blocks, n - 1)} ELSE {})
Placements(rule, marks) == {l \in Lines(Blocks(rule), Len(marks)) : LineFits(l, marks)}

\* Progress of a column: b blocks finished, a run of r open; -1 blocks: contradiction
ColStart == [b |-> 0, r |-> 0]
ColDead == [b |-> -1, r |-> 0]
ColStep(blocks, s, v) ==
  IF s.b < 0 THEN s
  ELSE IF v = 1 THEN IF s.b < Len(blocks) /\ s.r < blocks[s.b + 1] THEN [s EXCEPT !.r = @ + 1] ELSE ColDead
  ELSE IF s.r = 0 THEN s
  ELSE IF s.r = blocks[s.b + 1] THEN [b |-> s.b + 1, r |-> 0] ELSE ColDead
Room(blocks, s) ==   \* squares still needed below
  LET need == FoldLeft(LAMBDA a, n : a + n + 1, -1, SubSeq(blocks, s.b + 1, Len(blocks)))
  IN IF need < 0 THEN 0 ELSE need - s.r
ColEnds(blocks, s) == s.b = Len(blocks) \/ (s.b = Len(blocks) - 1 /\ s.r = blocks[Len(blocks)])

\* The vectors of column progress reachable with rows y.. ; a filling exists iff a final one is reached
RECURSIVE FillFrom(_, _, _, _, _, _)
FillFrom(cb, row, marks, w, y, states) ==
  IF states = {} THEN FALSE
  ELSE IF y > Len(row) THEN TRUE
  ELSE LET pl == Placements(row[y], RowLine(marks, w, y))
           next == TLCEval({TLCEval([x \in 1..w |-> ColStep(cb[x], s[x], l[x])]) : s \in states, l \in pl})
           left == Len(row) - y
       IN FillFrom(cb, row, marks, w, y + 1,
                   {s \in next : \A x \in 1..w : s[x].b >= 0 /\ Room(cb[x], s[x]) <= left
                                                 /\ (left = 0 => ColEnds(cb[x], s[x]))})
Fillable(col, row, marks) ==
  LET w == Len(col) IN
  FillFrom(TLCEval([x \in 1..w |-> Blocks(col[x])]), row, marks, w, 1, {TLCEval([x \in 1..w |-> ColStart])})
Solvable2(col, row) == Fillable(col, row, Zeros(Len(col) * Len(row)))

\* A contradiction visible without search: a line too long for its rule, or unequal totals
Sum(seq) == FoldLeft(LAMBDA a, b : a + b, 0, seq)
Needs(rule) == LET b == Blocks(rule) IN IF b = <<>> THEN 0 ELSE Sum(b) + Len(b) - 1
Evident(col, row) ==
  \/ \E x \in 1..Len(col) : Needs(col[x]) > Len(row)
  \/ \E y \in 1..Len(row) : Needs(row[y]) > Len(col)
  \/ Sum([x \in 1..Len(col) |-> Sum(col[x])]) # Sum([y \in 1..Len(row) |-> Sum(row[y])])

(****************************** line reasoning *****************************)
\* start positions of the blocks
Starts(line) == SelectSeq([i \in 1..Len(line) |-> i], LAMBDA i : line[i] = 1 /\ (i = 1 \/ line[i - 1] = 0))
\* the placement with every block as far left / right as possible
IsLeftmost(l, P) == \A q \in P : \A k \in 1..Len(Starts(l)) : Starts(l)[k] <= Starts(q)[k]
IsRightmost(l, P) == \A q \in P : \A k \in 1..Len(Starts(l)) : Starts(l)[k] >= Starts(q)[k]
Leftmost(P) == CHOOSE l \in P : IsLeftmost(l, P)
Rightmost(P) == CHOOSE l \in P : IsRightmost(l, P)
\* number of changes of value up to square i: identifies the block or gap the square is in
Segment(l, i) == Cardinality({j \in 1..i : l[j] # (IF j = 1 THEN 0 ELSE l[j - 1])})
\* marks that both extremes justify
Deduce(rule, marks) ==
  LET P == TLCEval(Placements(rule, marks)) IN
  IF P = {} THEN <<>>
  ELSE LET a == Leftmost(P)  z == Rightmost(P) IN
       TLCEval([i \in 1..Len(marks) |->
         IF marks[i] # Blank THEN marks[i]
         ELSE IF a[i] = z[i] /\ Segment(a, i) = Segment(z, i) THEN (IF a[i] = 1 THEN Filled ELSE Blocked)
         ELSE Blank])

(***************************** exact reasoning *****************************)
\* What all fillings of one line have in common, by walking the line's progress forwards and backwards,
\* without listing the fillings; applied to all lines until nothing changes; and search by cases where that
\* is not enough. This decides fillings of grids far too large for Fillable. LineClosure is the strongest
\* reasoning about single lines; MCNonogramClosure shows that both mean what the definitions above say.
Contradiction == <<-1>>
Allowed(m) == IF m = Blank THEN {0, 1} ELSE IF m = Filled THEN {1} ELSE {0}
Forward(blocks, marks) ==
  FoldLeft(LAMBDA acc, m : Append(acc, {t \in {ColStep(blocks, s, v) : s \in acc[Len(acc)], v \in Allowed(m)} : t.b >= 0}),
           <<{ColStart}>>, marks)
\* the sets of states from which the line can be completed, last first
Backward(blocks, marks, fwd) ==
  LET n == Len(marks) IN
  FoldLeft(LAMBDA acc, k : Append(acc, {s \in fwd[k] : \E v \in Allowed(marks[k]) : ColStep(blocks, s, v) \in acc[Len(acc)]}),
           <<{s \in fwd[n + 1] : ColEnds(blocks, s)}>>, [i \in 1..n |-> (n + 1) - i])
Chosen(S) == CHOOSE x \in S : TRUE     \* of a set with one element: evaluates it once
LineClosure(blocks, marks) ==
  LET n == Len(marks) IN
  Chosen({ LET step(k) == {v \in Allowed(marks[k]) : \E s \in back[(n + 2) - k] : ColStep(blocks, s, v) \in back[(n + 1) - k]}
               line == [k \in 1..n |-> LET vs == step(k) IN IF vs = {1} THEN Filled ELSE IF vs = {0} THEN Blocked ELSE marks[k]]
           IN IF back[n + 1] = {} THEN Contradiction ELSE line
         : back \in {Backward(blocks, marks, fwd) : fwd \in {Forward(blocks, marks)}} })
\* one round: every column, then every row
Round(cb, rb, marks) ==
  LET w == Len(cb)
      h == Len(rb)
      cols == FoldLeft(LAMBDA m, x : IF m = Contradiction THEN m
                ELSE Chosen({IF l = Contradiction THEN l
                             ELSE [i \in 1..(w * h) |-> IF ((i - 1) % w) + 1 = x THEN l[((i - 1) \div w) + 1] ELSE m[i]]
                             : l \in {LineClosure(cb[x], ColLine(m, w, h, x))}}),
                marks, [x \in 1..w |-> x])
  IN FoldLeft(LAMBDA m, y : IF m = Contradiction THEN m
                ELSE Chosen({IF l = Contradiction THEN l
                             ELSE [i \in 1..(w * h) |-> IF ((i - 1) \div w) + 1 = y THEN l[((i - 1) % w) + 1] ELSE m[i]]
                             : l \in {LineClosure(rb[y], RowLine(m, w, y))}}),
                cols, [y \in 1..h |-> y])
RECURSIVE CloseFrom(_, _, _)
CloseFrom(cb, rb, marks) ==
  Chosen({IF next = marks \/ next = Contradiction THEN next ELSE CloseFrom(cb, rb, next) : next \in {Round(cb, rb, marks)}})
Close(col, row, marks) ==
  Chosen({CloseFrom(b[1], b[2], marks) :
            b \in {<<[x \in 1..Len(col) |-> Blocks(col[x])], [y \in 1..Len(row) |-> Blocks(row[y])]>>}})
\* by cases on the first blank square
RECURSIVE SolveBy(_, _, _)
SolveBy(col, row, marks) ==
  \E c \in {Close(col, row, marks)} :
    /\ c # Contradiction
    /\ \/ \A i \in 1..Len(c) : c[i] # Blank
       \/ \E i \in {CHOOSE k \in 1..Len(c) : c[k] = Blank /\ \A j \in 1..(k - 1) : c[j] # Blank} :
            \/ SolveBy(col, row, [c EXCEPT ![i] = Filled])
            \/ SolveBy(col, row, [c EXCEPT ![i] = Blocked])
=============================================================================
