---------------------------- MODULE DancingLinks ----------------------------
(***************************************************************************)
(* The exact-cover engine down to its pointers (C14, C15).                 *)
(* The heap maps addresses to nodes; live is the set of addresses that are *)
(* allocated. Reading or writing a node that is not live, and freeing one  *)
(* that is not live, sets bad (the contents of freed nodes stay, as they   *)
(* would in a real heap). Address 0 is null, address 1 the root.           *)
(* Actions: Force (add_solution), Start, Descend, Fail, Unwind, Drop.      *)
(***************************************************************************)
EXTENDS CoverDefs

CONSTANTS Instances        \* set of [cons: sequence of sequences of rows, force: sequence, solve: BOOLEAN]

VARIABLES inst, m, rows, sol, replies, pos, phase, stack, result
vars == <<inst, m, rows, sol, replies, pos, phase, stack, result>>

Null == 0
Root == 1

(*************************** the heap as a value ***************************)
Touch(M, n) == IF n \in M.live THEN M ELSE [M EXCEPT !.bad = TRUE]
Get(M, n, f) == M.h[n][f]
Put(M, n, f, v) == LET T == Touch(M, n) IN [T EXCEPT !.h = [@ EXCEPT ![n] = [@ EXCEPT ![f] = v]]]
Free(M, n) == IF n \in M.live THEN [M EXCEPT !.live = @ \ {n}] ELSE [M EXCEPT !.bad = TRUE]
New(M, node) == LET a == Len(M.h) + 1 IN [M EXCEPT !.h = Append(@, node), !.live = @ \cup {a}]
Newest(M) == Len(M.h)

(****************************** construction *******************************)
\* a header behind the header prev (Null for the root)
NewHeader(M, prev, n) ==
  LET a == Len(M.h) + 1
      self == [hd |-> Null, l |-> a, r |-> a, u |-> a, d |-> a, row |-> n]
  IN IF prev = Null THEN New(M, self)
     ELSE LET nx == Get(M, prev, "r")
              M1 == New(M, [self EXCEPT !.l = prev, !.r = nx])
          IN Put(Put(M1, nx, "l", a), prev, "r", a)
\* a node of row i in the column of header hd, behind colprev in the column and rowprev in the row
NewNode(M, hd, rowprev, colprev, i) ==
  LET a == Len(M.h) + 1
      rn == IF rowprev = Null THEN a ELSE Get(M, rowprev, "r")
      M1 == New(M, [hd |-> hd, l |-> IF rowprev = Null THEN a ELSE rowprev, r |-> rn,
                    u |-> colprev, d |-> Get(M, colprev, "d"), row |-> i])
      M2 == IF rowprev = Null THEN M1 ELSE Put(Put(M1, rn, "l", a), rowprev, "r", a)
      dn == Get(M, colprev, "d")
  IN Put(Put(M2, dn, "u", a), colprev, "d", a)
\* B = [m, rows]: rows[i + 1] is the newest node of row i
AddEntry(B, hd, col, i) ==
  LET old == IF i + 1 <= Len(B.rows) THEN B.rows[i + 1] ELSE Null
      M1 == NewNode(B.m, hd, old, col, i)
      long == IF i + 1 <= Len(B.rows) THEN B.rows
              ELSE B.rows \o [k \in 1..(i + 1 - Len(B.rows)) |-> Null]
  IN [m |-> M1, rows |-> [long EXCEPT ![i + 1] = Newest(M1)]]
RECURSIVE AddEntries(_, _, _, _, _)
AddEntries(B, hd, col, list, k) ==
  IF k > Len(list) THEN B
  ELSE LET B1 == AddEntry(B, hd, col, list[k]) IN AddEntries(B1, hd, Newest(B1.m), list, k + 1)
RECURSIVE AddConstraints(_, _, _, _)
AddConstraints(B, prev, cons, k) ==
  IF k > Len(cons) THEN B
  ELSE LET M1 == NewHeader(B.m, prev, Len(cons[k]))
           hd == Newest(M1)
       IN AddConstraints(AddEntries([B EXCEPT !.m = M1], hd, hd, cons[k], 1), hd, cons, k + 1)
Build(cons) ==
  AddConstraints([m |-> NewHeader([h |-> <<>>, live |-> {}, bad |-> FALSE], Null, 0), rows |-> <<>>], Root, cons, 1)

(************************** covering and freeing ***************************)
HeaderOf(M, n) == IF Get(M, n, "hd") = Null THEN n ELSE Get(M, n, "hd")
CoverH(M, n) == LET l == Get(M, n, "l")  r == Get(M, n, "r")
                IN Put(Put(Touch(M, n), l, "r", r), r, "l", l)
CoverV(M, n) == LET u == Get(M, n, "u")  d == Get(M, n, "d")
                IN Put(Put(Touch(M, n), u, "d", d), d, "u", u)
UncoverH(M, n) == LET l == Get(M, n, "l")  r == Get(M, n, "r")
                  IN Put(Put(Touch(M, n), l, "r", n), r, "l", n)
UncoverV(M, n) == LET u == Get(M, n, "u")  d == Get(M, n, "d")
                  IN Put(Put(Touch(M, n), u, "d", n), d, "u", n)
Count(M, n, by) == LET hd == Get(M, n, "hd") IN Put(Touch(M, n), hd, "row", Get(M, hd, "row") + by)

\* An iterator reads the successor of a node when it yields the node.
RECURSIVE CoverRow(_, _, _)
CoverRow(M, orig, cur) ==
  IF cur = orig THEN M
  ELSE LET nx == Get(M, cur, "r") IN CoverRow(Count(CoverV(Touch(M, cur), cur), cur, -1), orig, nx)
RECURSIVE CoverRows(_, _, _)
CoverRows(M, hd, cur) ==
  IF cur = hd THEN M
  ELSE LET nx == Get(M, cur, "d")
           T == Touch(M, cur)
       IN CoverRows(CoverRow(T, cur, Get(T, cur, "r")), hd, nx)
Cover(M, n) ==
  LET hd == HeaderOf(M, n)
      M1 == CoverH(Touch(M, n), hd)
  IN CoverRows(M1, hd, Get(M1, hd, "d"))

RECURSIVE UncoverRow(_, _, _)
UncoverRow(M, orig, cur) ==
  IF cur = orig THEN M
  ELSE LET nx == Get(M, cur, "l") IN UncoverRow(UncoverV(Count(Touch(M, cur), cur, 1), cur), orig, nx)
RECURSIVE UncoverRows(_, _, _)
UncoverRows(M, hd, cur) ==
  IF cur = hd THEN M
  ELSE LET nx == Get(M, cur, "u")
           T == Touch(M, cur)
       IN UncoverRows(UncoverRow(T, cur, Get(T, cur, "l")), hd, nx)
Uncover(M, n) ==
  LET hd == HeaderOf(M, n)
      T == Touch(M, n)
  IN UncoverH(UncoverRows(T, hd, Get(T, hd, "u")), hd)

RECURSIVE FreeRow(_, _, _)
FreeRow(M, orig, cur) ==
  IF cur = orig THEN M
  ELSE LET nx == Get(M, cur, "r") IN FreeRow(Free(Touch(M, cur), cur), orig, nx)
RECURSIVE FreeRows(_, _, _)
FreeRows(M, hd, cur) ==
  IF cur = hd THEN M
  ELSE LET nx == Get(M, cur, "d")
           T == Touch(M, cur)
       IN FreeRows(Free(FreeRow(T, cur, Get(T, cur, "r")), cur), hd, nx)
FreeChain(M, n) ==
  LET hd == HeaderOf(M, n)
      T == Touch(M, n)
  IN Free(FreeRows(T, hd, Get(T, hd, "d")), hd)

\* the same operation on the other nodes of a row
RECURSIVE OthersCover(_, _, _)
OthersCover(M, orig, cur) == IF cur = orig THEN M
  ELSE LET nx == Get(M, cur, "r") IN OthersCover(Cover(Touch(M, cur), cur), orig, nx)
RECURSIVE OthersUncover(_, _, _)
OthersUncover(M, orig, cur) == IF cur = orig THEN M
  ELSE LET nx == Get(M, cur, "l") IN OthersUncover(Uncover(Touch(M, cur), cur), orig, nx)
RECURSIVE OthersFree(_, _, _)
OthersFree(M, orig, cur) == IF cur = orig THEN M
  ELSE LET nx == Get(M, cur, "r") IN OthersFree(FreeChain(Touch(M, cur), cur), orig, nx)

(******************************** forcing **********************************)
RECURSIVE Ring(_, _, _, _)
Ring(M, orig, cur, f) == IF cur = orig THEN <<>> ELSE <<cur>> \o Ring(M, orig, Get(M, cur, f), f)
RingOf(M, n, f) == <<n>> \o Ring(M, n, Get(M, n, f), f)
\* rows sharing a column with row node n, itself included
Conflicting(M, n) ==
  LET cols == RingOf(M, n, "r") IN
  UNION {LET hd == Get(M, cols[k], "hd")
             down == Ring(M, hd, Get(M, hd, "d"), "d")
         IN {Get(M, down[j], "row") : j \in 1..Len(down)} : k \in 1..Len(cols)}
Accesses(M, n) ==
  LET cols == RingOf(M, n, "r") IN
  {cols[k] : k \in 1..Len(cols)} \cup
  UNION {LET hd == Get(M, cols[k], "hd") IN {hd} \cup {Ring(M, hd, Get(M, hd, "d"), "d")[j] :
           j \in 1..Len(Ring(M, hd, Get(M, hd, "d"), "d"))} : k \in 1..Len(cols)}
ForceRow(M, rs, n) ==
  LET T == [M EXCEPT !.bad = @ \/ ~(Accesses(M, n) \subseteq M.live)]
      gone == Conflicting(T, n)
      rs1 == [i \in DOMAIN rs |-> IF i - 1 \in gone THEN Null ELSE rs[i]]
      M1 == OthersCover(Cover(T, n), n, Get(T, n, "r"))
      M2 == FreeChain(OthersFree(M1, n, Get(M1, n, "r")), n)
  IN [m |-> M2, rows |-> rs1]

(******************************** behaviour ********************************)
SetOf(seq) == {seq[i] : i \in 1..Len(seq)}
ConSets == [c \in 1..Len(inst.cons) |-> SetOf(inst.cons[c])]

Init == /\ inst \in Instances
        /\ LET b == Build(inst.cons) IN m = b.m /\ rows = b.rows
        /\ sol = <<>> /\ replies = <<>> /\ pos = 1 /\ phase = "force" /\ stack = <<>> /\ result = "none"

Force ==
  /\ phase = "force" /\ pos <= Len(inst.force)
  /\ LET r == inst.force[pos] IN
       IF r + 1 > Len(rows) THEN replies' = Append(replies, "IndexError") /\ UNCHANGED <<m, rows, sol>>
       ELSE IF rows[r + 1] = Null THEN replies' = Append(replies, "InvalidRow") /\ UNCHANGED <<m, rows, sol>>
       ELSE \E F \in {ForceRow(m, rows, rows[r + 1])} :
            m' = F.m /\ rows' = F.rows /\ replies' = Append(replies, "Ok") /\ sol' = Append(sol, r)
  /\ pos' = pos + 1
  /\ UNCHANGED <<inst, phase, stack, result>>

Start == /\ phase = "force" /\ pos > Len(inst.force)
         /\ phase' = IF inst.solve THEN "descend" ELSE "drop"
         /\ UNCHANGED <<inst, m, rows, sol, replies, pos, stack, result>>

\* the header with the fewest rows, the first of them
Choose(M) == LET hs == Ring(M, Root, Get(M, Root, "r"), "r")
                 k == CHOOSE i \in 1..Len(hs) : /\ \A j \in 1..Len(hs) : Get(M, hs[j], "row") >= Get(M, hs[i], "row")
                                                /\ \A j \in 1..(i - 1) : Get(M, hs[j], "row") > Get(M, hs[i], "row")
             IN hs[k]
HeadersLive(M) == \A k \in 1..Len(RingOf(M, Root, "r")) : RingOf(M, Root, "r")[k] \in M.live
Select(M, row) == OthersCover(M, row, Get(M, row, "r"))

Descend ==
  /\ phase = "descend"
  /\ IF Get(m, Root, "r") = Root
     THEN phase' = "unwind" /\ result' = "found" /\ UNCHANGED <<m, sol, stack>>
     ELSE \E M0 \in {[m EXCEPT !.bad = @ \/ ~HeadersLive(m)]} :
          \E c \in {Choose(M0)} :
          \E M1 \in {Cover(M0, c)} :
          IF Get(M1, c, "d") = c
          THEN /\ m' = Uncover(M1, c) /\ phase' = "fail" /\ UNCHANGED <<sol, stack, result>>
          ELSE LET row == Get(M1, c, "d") IN
               /\ m' = Select(Touch(M1, row), row)
               /\ sol' = Append(sol, Get(M1, row, "row"))
               /\ stack' = Append(stack, [c |-> c, row |-> row, nx |-> Get(M1, row, "d")])
               /\ UNCHANGED <<phase, result>>
  /\ UNCHANGED <<inst, rows, replies, pos>>

Fail ==
  /\ phase = "fail"
  /\ IF stack = <<>> THEN phase' = "drop" /\ result' = "none exists" /\ UNCHANGED <<m, sol, stack>>
     ELSE LET top == stack[Len(stack)] IN
          \E M1 \in {OthersUncover(Touch(m, top.row), top.row, Get(m, top.row, "l"))} :
          IF top.nx = top.c
          THEN /\ m' = Uncover(M1, top.c)
               /\ sol' = SubSeq(sol, 1, Len(sol) - 1)
               /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
               /\ UNCHANGED <<phase, result>>
          ELSE /\ m' = Select(Touch(M1, top.nx), top.nx)
               /\ sol' = [sol EXCEPT ![Len(sol)] = Get(M1, top.nx, "row")]
               /\ stack' = [stack EXCEPT ![Len(stack)] = [c |-> top.c, row |-> top.nx, nx |-> Get(M1, top.nx, "d")]]
               /\ phase' = "descend" /\ UNCHANGED result
  /\ UNCHANGED <<inst, rows, replies, pos>>

Unwind ==
  /\ phase = "unwind"
  /\ IF stack = <<>> THEN phase' = "drop" /\ UNCHANGED <<m, stack>>
     ELSE LET top == stack[Len(stack)] IN
          /\ m' = FreeChain(OthersFree(m, top.row, Get(m, top.row, "r")), top.c)
          /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
          /\ UNCHANGED phase
  /\ UNCHANGED <<inst, rows, sol, replies, pos, result>>

RECURSIVE DropColumn(_, _, _)
DropColumn(M, hd, cur) ==
  IF cur = hd THEN M ELSE LET nx == Get(M, cur, "d") IN DropColumn(Free(Touch(M, cur), cur), hd, nx)
RECURSIVE DropAll(_, _, _)
DropAll(M, orig, cur) ==
  LET nx == Get(M, cur, "r")
      dn == Get(M, cur, "d")
      M1 == DropColumn(Free(Touch(M, cur), cur), cur, dn)
  IN IF nx = orig THEN M1 ELSE DropAll(M1, orig, nx)
Drop == /\ phase = "drop" /\ m' = DropAll(m, Root, Root) /\ phase' = "done"
        /\ UNCHANGED <<inst, rows, sol, replies, pos, stack, result>>

Next == Force \/ Start \/ Descend \/ Fail \/ Unwind \/ Drop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(******************************** properties *******************************)
MemorySafe == ~m.bad
NothingLeaks == phase = "done" => m.live = {}
\* forcing behaves as the abstract engine says
RECURSIVE AbstractSel(_)
AbstractSel(k) == IF k = 0 THEN {} ELSE ForceEffect(ConSets, AbstractSel(k - 1), inst.force[k])
RepliesRight == \A k \in 1..Len(replies) : replies[k] = ForceReply(ConSets, AbstractSel(k - 1), inst.force[k])
Forced == AbstractSel(Len(replies))
\* links are consistent both ways and counters count, between operations
LinksRight == phase \in {"force", "descend"} =>
  LET hs == RingOf(m, Root, "r") IN
  \A k \in 1..Len(hs) :
    LET hd == hs[k]  down == RingOf(m, hd, "d") IN
    /\ Get(m, Get(m, hd, "r"), "l") = hd
    /\ \A j \in 1..Len(down) : Get(m, Get(m, down[j], "d"), "u") = down[j]
    /\ hd # Root => Get(m, hd, "row") = Len(down) - 1
\* rows[] knows exactly the rows that still fit
RowsRight == phase = "force" =>
  \A i \in DOMAIN rows : rows[i] # Null <=> Fits(ConSets, Forced, i - 1)
ResultRight ==
  /\ result = "found" => /\ Cardinality(SetOf(sol)) = Len(sol)
                         /\ IsCover(ConSets, SetOf(sol)) /\ Forced \subseteq SetOf(sol)
  /\ result = "none exists" => ~CoverExistsDef(ConSets, Forced)
Terminates == <>(phase = "done")
=============================================================================
