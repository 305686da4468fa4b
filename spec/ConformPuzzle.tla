---------------------------- MODULE ConformPuzzle ----------------------------
(* Which outcomes of parsing and solving, and of the two engines, the         *)
(* specification explains. An outcome that is neither a value nor an error    *)
(* (panic, crash, hang) is explained by none of them, except where a property *)
(* speaks about returned values only (C09, C17).                              *)
EXTENDS SudokuDefs, CoverDefs, NonogramDefs, Parsers, MazeDefs

PuzzleOps == {"C09", "C10", "C11solve", "C11print", "C12", "C14", "C15", "C16", "C16wide", "C16blocks", "C17", "C18", "C18huge", "C19", "C19empty",
              "C20", "C23", "C25"}

Is09(v) == \A i \in 1..Len(v) : v[i] \in 0..9

(********************************* sudoku *********************************)
\* wit: a grid the generator claims to be a completion; believed only if it is one
\* ref: choices the generator claims to refute the puzzle; believed only if they do
HasSudoku(e) == IF "wit" \in DOMAIN e /\ Completes(3, e.p, e.wit) THEN TRUE
                ELSE IF "ref" \in DOMAIN e /\ Refuted(3, e.p, e.ref) THEN FALSE
                ELSE Solvable(3, e.p)
SudokuErr(o, e) == o.k = "err" /\ o.e = e
Explained11(e, o) ==
  IF Len(e.p) # 81 THEN SudokuErr(o, "InvalidSize") /\ o.n = Len(e.p)
  ELSE IF ~Is09(e.p) THEN o.k = "err"
  ELSE o.k = "ok" \/ o.k = "err"

(********************************** heap ***********************************)
\* ev: +n allocation n, -n release of allocation n, in order
HeapRun(ev) ==
  FoldLeft(LAMBDA s, x : IF ~s.ok THEN s
                         ELSE IF x > 0 THEN [s EXCEPT !.ok = (x = Len(s.st) + 1), !.st = Append(@, 1)]
                         ELSE IF -x \in 1..Len(s.st) /\ s.st[-x] = 1 THEN [s EXCEPT !.st = [@ EXCEPT ![-x] = 0]]
                         ELSE [s EXCEPT !.ok = FALSE],
           [ok |-> TRUE, st |-> <<>>], ev)
HeapRight(o) ==
  /\ o.bad = 0
  /\ o.cut \/ (o.live = 0 /\ o.allocs = o.frees)
  /\ o.ev = <<>> \/ LET r == HeapRun(o.ev) IN r.ok /\ \A i \in 1..Len(r.st) : r.st[i] = 0

(******************************* exact cover *******************************)
ToSet2(seq) == {seq[i] : i \in 1..Len(seq)}
ConsOf(e) == TLCEval([c \in 1..Len(e.cons) |-> ToSet2(e.cons[c])])
RECURSIVE SelAfter(_, _, _)
SelAfter(cons, force, k) == IF k = 0 THEN {} ELSE ForceEffect(cons, SelAfter(cons, force, k - 1), force[k])
HasCover(cons, sel, e) ==
  IF "wit" \in DOMAIN e /\ IsCover(cons, ToSet2(e.wit)) /\ sel \subseteq ToSet2(e.wit) THEN TRUE ELSE CoverExists(cons, sel)
Explained15(e, o) ==
  LET cons == ConsOf(e)
      sel == SelAfter(cons, e.force, Len(e.force))
  IN /\ o.k = "ok"
     /\ Len(o.forced) = Len(e.force)
     /\ \A k \in 1..Len(e.force) : o.forced[k] = ForceReply(cons, SelAfter(cons, e.force, k - 1), e.force[k])
     /\ IF ~e.solve THEN o.res.k = "dropped"
        ELSE IF o.res.k = "ok"
        THEN LET v == ToSet2(o.res.v) IN Cardinality(v) = Len(o.res.v) /\ IsCover(cons, v) /\ sel \subseteq v
        ELSE o.res.k = "err" /\ o.res.e = "NoSolution" /\ ~HasCover(cons, sel, e)
     /\ HeapRight(o)

(******************************** union-find *******************************)
\* cls[i + 1]: class of element i; rep[i + 1]: the representative seen for it since its last union, or -1
UFNew(n) == [ok |-> TRUE, cls |-> [i \in 1..n |-> i], rep |-> [i \in 1..n |-> -1]]
UFIn(s, x) == x < Len(s.cls)
UFStep(s, op, r) ==
  CASE op.f = "new" -> [UFNew(0) EXCEPT !.ok = s.ok /\ r = 0]
    [] op.f = "with_size" -> [UFNew(op.a[1]) EXCEPT !.ok = s.ok /\ r = 0]
    [] op.f = "add" -> [ok |-> s.ok /\ r = 0, cls |-> Append(s.cls, Len(s.cls) + 1), rep |-> Append(s.rep, -1)]
    [] op.f = "find" ->
         IF ~UFIn(s, op.a[1]) THEN [s EXCEPT !.ok = @ /\ r = -1]
         ELSE LET x == op.a[1] + 1
                  fine == /\ r >= 0 /\ UFIn(s, r) /\ s.cls[r + 1] = s.cls[x]
                          /\ s.rep[x] \in {-1, r}
              IN [s EXCEPT !.ok = @ /\ fine,
                           !.rep = [i \in 1..Len(s.cls) |-> IF s.cls[i] = s.cls[x] THEN r ELSE s.rep[i]]]
    [] op.f = "common" ->
         IF ~UFIn(s, op.a[1]) \/ ~UFIn(s, op.a[2]) THEN [s EXCEPT !.ok = @ /\ r = -1]
         ELSE [s EXCEPT !.ok = @ /\ r = (IF s.cls[op.a[1] + 1] = s.cls[op.a[2] + 1] THEN 1 ELSE 0)]
    [] op.f = "union" ->
         IF ~UFIn(s, op.a[1]) \/ ~UFIn(s, op.a[2]) THEN [s EXCEPT !.ok = @ /\ r = -1]
         ELSE LET a == s.cls[op.a[1] + 1]  b == s.cls[op.a[2] + 1] IN
              [ok |-> s.ok /\ r # -1 /\ r # -9,
               cls |-> [i \in 1..Len(s.cls) |-> IF s.cls[i] = b THEN a ELSE s.cls[i]],
               rep |-> [i \in 1..Len(s.cls) |-> IF s.cls[i] \in {a, b} THEN -1 ELSE s.rep[i]]]
RECURSIVE UFRun(_, _, _, _)
UFRun(s, ops, r, k) == IF ~s.ok \/ k > Len(ops) THEN s.ok
                       ELSE IF k > Len(r) THEN FALSE
                       ELSE UFRun(TLCEval(UFStep(s, ops[k], r[k])), ops, r, k + 1)

\* Large structures: each chain [lo, hi, step] links lo, lo + step, ... one after the other. Two elements are
\* linked if they are equal or lie on chains that are connected by shared elements.
OnChain(c, x) == x >= c.lo /\ x <= c.hi /\ (x - c.lo) % c.step = 0
\* elements of a from the beginning of b on; their residues repeat after b.step of them
Meet(a, b) ==
  LET first == IF b.lo <= a.lo THEN 0 ELSE (b.lo - a.lo + a.step - 1) \div a.step
      size == (a.hi - a.lo) \div a.step
  IN \E j \in first..(IF size < first + b.step - 1 THEN size ELSE first + b.step - 1) :
       LET x == a.lo + (j * a.step) IN OnChain(a, x) /\ OnChain(b, x)
RECURSIVE Closure(_, _)
Closure(R, n) == LET more == R \cup {p \in (1..n) \X (1..n) : \E k \in 1..n : <<p[1], k>> \in R /\ <<k, p[2]>> \in R}
                 IN IF more = R THEN R ELSE Closure(more, n)
LinkedBy(R, ch, x, y) == x = y \/ \E p \in R : OnChain(ch[p[1]], x) /\ OnChain(ch[p[2]], y)
Explained16Wide(e, o) ==
  LET ch == e.chains
      n == Len(ch)
      in(x) == x < e.n
  IN \E R0 \in {{p \in (1..n) \X (1..n) : p[1] = p[2] \/ Meet(ch[p[1]], ch[p[2]])}} : \E R \in {Closure(R0, n)} :
     /\ o.k = "ok" /\ Len(o.common) = Len(e.common) /\ Len(o.find) = Len(e.find)
     /\ \A k \in 1..Len(e.common) :
          LET x == e.common[k][1]  y == e.common[k][2] IN
          o.common[k] = IF in(x) /\ in(y) THEN (IF LinkedBy(R, ch, x, y) THEN 1 ELSE 0) ELSE -1
     /\ \A k \in 1..Len(e.find) :
          IF ~in(e.find[k]) THEN o.find[k] = -1
          ELSE /\ o.find[k] >= 0 /\ in(o.find[k]) /\ LinkedBy(R, ch, o.find[k], e.find[k])
               /\ \A j \in 1..Len(e.find) : (in(e.find[j]) /\ LinkedBy(R, ch, e.find[j], e.find[k])) => o.find[j] = o.find[k]

\* Blocks of 2^levels neighbours, each joined into one set by halves; a last incomplete block is joined as far as
\* its complete halves go
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
RECURSIVE BlockOf(_, _, _)
BlockOf(n, x, k) == IF k = 0 THEN <<0, x>>
                    ELSE IF (x \div Pow2(k)) < (n \div Pow2(k)) THEN <<k, x \div Pow2(k)>> ELSE BlockOf(n, x, k - 1)
Explained16Blocks(e, o) ==
  \E s \in {Pow2(e.levels)} :
    LET in(x) == x < e.n
        cls(x) == IF x \div s < e.n \div s THEN <<e.levels, x \div s>> ELSE BlockOf(e.n, x, e.levels)
    IN /\ o.k = "ok" /\ Len(o.common) = Len(e.common) /\ Len(o.find) = Len(e.find)
       /\ \A k \in 1..Len(e.common) :
            LET x == e.common[k][1]  y == e.common[k][2] IN
            o.common[k] = IF in(x) /\ in(y) THEN (IF cls(x) = cls(y) THEN 1 ELSE 0) ELSE -1
       /\ \A k \in 1..Len(e.find) :
            IF ~in(e.find[k]) THEN o.find[k] = -1
            ELSE o.find[k] >= 0 /\ in(o.find[k]) /\ cls(o.find[k]) = cls(e.find[k])
       \* the same representative for all that were asked of one set
       /\ \E f \in {{k \in 1..Len(e.find) : in(e.find[k])}} :
            Cardinality({<<cls(e.find[k]), o.find[k]>> : k \in f}) = Cardinality({cls(e.find[k]) : k \in f})

(******************************** nonograms ********************************)
HasNonogram(e) ==
  IF "wit" \in DOMAIN e /\ Satisfies(e.col, e.row, e.wit) THEN TRUE
  ELSE ~Evident(e.col, e.row) /\ SolveBy(e.col, e.row, Zeros(Len(e.col) * Len(e.row)))
Opp(v) == IF v = Filled THEN Blocked ELSE Filled
\* wit: a picture that satisfies the rules and agrees with the marks, if one is known
Witness23(e) == "wit" \in DOMAIN e /\ Satisfies(e.col, e.row, e.wit) /\ LineFits(e.wit, e.grid)
Explained23(e, o) ==
  LET n == Len(e.col) * Len(e.row)
      wit == Witness23(e)
  IN
  IF o.k = "err" THEN o.e = "NoSolution" /\ ~wit /\ ~SolveBy(e.col, e.row, e.grid)
  ELSE /\ o.k = "ok" /\ Len(o.v) = n
       /\ \A i \in 1..n : o.v[i] \in 0..2 /\ (e.grid[i] # Blank => o.v[i] = e.grid[i])
       /\ wit => LineFits(e.wit, o.v)
       \* what follows line by line is fine; any other mark needs that its opposite has no completion
       /\ \E c \in {Close(e.col, e.row, e.grid)} :
            c = Contradiction \/
            \A i \in 1..n : (o.v[i] # c[i] /\ o.v[i] # Blank) => ~SolveBy(e.col, e.row, [e.grid EXCEPT ![i] = Opp(o.v[i])])
       /\ (\A i \in 1..n : o.v[i] # Blank) =>
            Satisfies(e.col, e.row, [i \in 1..n |-> IF o.v[i] = Filled THEN 1 ELSE 0])
\* numbers far beyond the line: cn and rn are the numbers of the rules as digits
Explained18Huge(e, o) ==
  LET beyond(rules, n) == \E i \in 1..Len(rules) : \E k \in 1..Len(rules[i]) : Greater(rules[i][k], OfNat(n))
  IN (beyond(e.cn, Len(e.rn)) \/ beyond(e.rn, Len(e.cn))) /\ o.k = "err" /\ o.e = "NoSolution"
Explained19(e, o) ==
  \E plus \in BOOLEAN :
    LET c == RulesText(e.cs, OfNat(e.h), plus)
        r == RulesText(e.rs, OfNat(e.w), plus)
    IN IF c.k = "err" \/ r.k = "err" THEN o.k = "rejected"
       ELSE /\ o.k = "ok"
            /\ Len(o.col) = Len(c.v) /\ Len(o.row) = Len(r.v)
            /\ \/ o.solve.k = "ok" /\ Len(o.solve.v) = Len(o.col) * Len(o.row)
               \/ o.solve.k = "err" /\ o.solve.e = "NoSolution"
            /\ o.print.k = "ok"

(****************************** independence *******************************)
\* e.alone: the result of each call as the only call of a process; o.results: the results seen for it when
\* called again and again, in many orders, from several threads
MazeFine(z) == LET m == [w |-> z.w, h |-> z.h, right |-> z.right, down |-> z.down] IN
  z.k = "ok" /\ WellFormed(m) /\ LET l == Layers(m) IN PerfectWith(m, l) /\ ExitRightWith(m, l) /\ SolutionRight(m, z.sol)
Explained25(e, o) ==
  /\ o.k = "ok"
  /\ Len(o.results) = Len(e.alone)
  /\ \A i \in 1..Len(e.alone) : o.results[i] = <<e.alone[i]>>
  /\ \A i \in 1..Len(o.mazes) : MazeFine(o.mazes[i])

PuzzleExplained(e) ==
  LET o == e.out IN
  CASE e.op = "C09" -> o.k = "ok" => Completes(3, e.p, o.v)
    [] e.op = "C10" -> \/ o.k = "ok" /\ HasSudoku(e)
                       \/ SudokuErr(o, "NoSolution") /\ ~HasSudoku(e)
    [] e.op = "C11solve" -> Explained11(e, o)
    [] e.op = "C11print" -> IF Len(e.p) # 81 THEN SudokuErr(o, "InvalidSize") /\ o.n = Len(e.p) ELSE o.k = "ok"
    [] e.op = "C12" -> o = SudokuText(e.s, 81)
    [] e.op = "C14" -> o.k = "ok" /\ o.res.k \in {"ok", "err"} /\ HeapRight(o)
    [] e.op = "C15" -> Explained15(e, o)
    [] e.op = "C16" -> o.k = "ok" /\ Len(o.r) = Len(e.ops) /\ UFRun(UFNew(0), e.ops, o.r, 1)
    [] e.op = "C16wide" -> Explained16Wide(e, o)
    [] e.op = "C16blocks" -> Explained16Blocks(e, o)
    [] e.op = "C17" -> o.k = "ok" => Satisfies(e.col, e.row, o.v)
    [] e.op = "C18" -> \/ o.k = "ok" /\ HasNonogram(e)
                       \/ o.k = "err" /\ o.e = "NoSolution" /\ ~HasNonogram(e)
    [] e.op = "C18huge" -> Explained18Huge(e, o)
    [] e.op = "C19" -> Explained19(e, o)
    [] e.op = "C19empty" -> o.k = "err" /\ o.e = "EmptyPuzzle"
    [] e.op = "C20" -> \E plus \in BOOLEAN : o = RulesText(e.s, e.bd, plus)
    [] e.op = "C23" -> Explained23(e, o)
    [] e.op = "C25" -> Explained25(e, o)
=============================================================================
