---------------------------- MODULE UnionFind ----------------------------
(***************************************************************************)
(* Design model of src/structures/disjoint_set.rs: the element array with  *)
(* union by size and path compression, one action per public operation,    *)
(* next to the abstract meaning (a partition of the elements).             *)
(* An element is [root |-> BOOLEAN, val |-> size or parent], as in the     *)
(* code; elements are numbered from 0 and stored at index + 1.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT MaxElems   \* bound on the number of elements

\* ------------------------- the code's algorithm -------------------------
NewElem == [root |-> TRUE, val |-> 1]

RECURSIVE Root(_, _)
Root(es, i) == IF es[i + 1].root THEN i ELSE Root(es, es[i + 1].val)

\* find_helper: every element on the way to the root gets the root as parent
RECURSIVE Compress(_, _)
Compress(es, i) ==
  IF es[i + 1].root THEN es
  ELSE LET r  == Root(es, i)
           e1 == Compress(es, es[i + 1].val)
       IN [e1 EXCEPT ![i + 1].val = r]

UnionOp(es, a, b) ==
  LET e1 == Compress(es, a)
      e2 == Compress(e1, b)
      ra == Root(e2, a)
      rb == Root(e2, b)
  IN IF ra = rb THEN e2
     ELSE LET small == IF e2[ra + 1].val < e2[rb + 1].val THEN ra ELSE rb
              large == IF small = ra THEN rb ELSE ra
          IN [e2 EXCEPT ![large + 1].val = @ + e2[small + 1].val,
                        ![small + 1] = [root |-> FALSE, val |-> large]]

Size(es) == Len(es)
InRange(es, i) == i < Len(es)

\* ------------------------- the abstract meaning -------------------------
\* A partition is a function from elements to a class name (the least member).
Merge(cl, a, b) ==
  LET lo == IF cl[a] < cl[b] THEN cl[a] ELSE cl[b]
      hi == IF cl[a] < cl[b] THEN cl[b] ELSE cl[a]
  IN [x \in DOMAIN cl |-> IF cl[x] = hi THEN lo ELSE cl[x]]

\* ------------------------------ state machine ---------------------------
VARIABLES es,     \* the element array
          cl,     \* the abstract partition
          last    \* last operation and reply (hidden by the VIEW)
vars == <<es, cl, last>>

N == Len(es)
Init == \E n \in 0..MaxElems :
          /\ es = [i \in 1..n |-> NewElem]
          /\ cl = [i \in 0..(n - 1) |-> i]
          /\ last = [op |-> "init", a |-> 0, b |-> 0, res |-> 0]

Add == /\ N < MaxElems
       /\ es' = Append(es, NewElem)
       /\ cl' = [i \in 0..N |-> IF i = N THEN N ELSE cl[i]]
       /\ last' = [op |-> "add", a |-> 0, b |-> 0, res |-> 0]

\* Some(x) is modelled by x, None by 99
None == 99

Find(i) == /\ IF InRange(es, i)
              THEN es' = Compress(es, i) /\ last' = [op |-> "find", a |-> i, b |-> i, res |-> Root(es, i)]
              ELSE es' = es /\ last' = [op |-> "find", a |-> i, b |-> i, res |-> None]
           /\ cl' = cl

Common(i, j) ==
  \* find(i)? == find(j)? : the second find is not evaluated when the first is None
  /\ IF InRange(es, i) /\ InRange(es, j)
     THEN LET e1 == Compress(es, i)
              e2 == Compress(e1, j)
          IN es' = e2 /\ last' = [op |-> "common", a |-> i, b |-> j,
                                  res |-> IF Root(es, i) = Root(e1, j) THEN 1 ELSE 0]
     ELSE /\ es' = (IF InRange(es, i) THEN Compress(es, i) ELSE es)
          /\ last' = [op |-> "common", a |-> i, b |-> j, res |-> None]
  /\ cl' = cl

Union(i, j) ==
  /\ IF InRange(es, i) /\ InRange(es, j)
     THEN /\ es' = UnionOp(es, i, j)
          /\ cl' = Merge(cl, i, j)
          /\ last' = [op |-> "union", a |-> i, b |-> j, res |-> 1]
     ELSE /\ es' = (IF InRange(es, i) THEN Compress(es, i) ELSE es)
          /\ cl' = cl
          /\ last' = [op |-> "union", a |-> i, b |-> j, res |-> None]

Next == \/ Add
        \/ \E i \in 0..N : Find(i)
        \/ \E i, j \in 0..N : Common(i, j) \/ Union(i, j)

Spec == Init /\ [][Next]_vars

\* ------------------------------ properties ------------------------------
TypeOK == /\ DOMAIN cl = 0..(N - 1)
          /\ \A i \in 1..N : es[i].root \in BOOLEAN /\ es[i].val \in 0..(N + 1)

\* parents lead to a root without going round in circles
Acyclic == \A i \in 0..(N - 1) :
             \E k \in 0..N : LET up[n \in 0..k] == IF n = 0 THEN i ELSE es[up[n - 1] + 1].val
                             IN es[up[k] + 1].root

\* C16: same representative iff linked by unions
Refines == \A i, j \in 0..(N - 1) : (Root(es, i) = Root(es, j)) <=> (cl[i] = cl[j])
RepInClass == \A i \in 0..(N - 1) : cl[Root(es, i)] = cl[i]
SizesRight == \A i \in 0..(N - 1) :
                es[i + 1].root => es[i + 1].val = Cardinality({j \in 0..(N - 1) : Root(es, j) = i})

\* union by size keeps the trees shallow: depth d needs 2^d elements
RECURSIVE Depth(_, _)
Depth(e, i) == IF e[i + 1].root THEN 0 ELSE 1 + Depth(e, e[i + 1].val)
Shallow == \A i \in 0..(N - 1) : 2 ^ Depth(es, i) <= N

\* the reply of every operation (an action property: it is evaluated on every transition)
ReplyRight ==
  CASE last'.op = "find"   -> last'.res = IF last'.a < N THEN Root(es, last'.a) ELSE None
    [] last'.op = "common" -> last'.res = IF last'.a < N /\ last'.b < N
                                          THEN (IF cl[last'.a] = cl[last'.b] THEN 1 ELSE 0) ELSE None
    [] last'.op = "union"  -> last'.res = IF last'.a < N /\ last'.b < N THEN 1 ELSE None
    [] OTHER -> TRUE
ResultRight == [][ReplyRight]_vars

\* queries never change the partition
QueriesPure == [][last'.op \in {"find", "common"} => cl' = cl]_vars

\* the last reply does not distinguish states
View == <<es, cl>>
=============================================================================
