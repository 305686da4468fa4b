------------------------------- MODULE MCCover -------------------------------
(* All exact-cover instances with few constraints over few rows.              *)
EXTENDS CoverSearch
CONSTANTS MaxCons, MaxRow, MaxForce
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
\* constraints as a sequence in a canonical order: their order does not matter to a cover
Key(s) == FoldLeft(LAMBDA a, r : 2 * a + (IF r \in s THEN 1 ELSE 0), 0, [i \in 1..(MaxRow + 1) |-> i - 1])
Small == {c \in SeqsUpTo(SUBSET (0..MaxRow), MaxCons) : \A i \in 1..(Len(c) - 1) : Key(c[i]) <= Key(c[i + 1])}
AllInstances == [cons : Small, force : SeqsUpTo(0..(MaxRow + 1), MaxForce)]
\* the search used to judge recorded calls agrees with the definition
SearchAgrees == phase = "force" /\ pos = 1 => (CoverExists(cons, {}) <=> CoverExistsDef(cons, {}))
FailedDef == phase = "failed" => ~CoverExistsDef(cons, sel)
=============================================================================
