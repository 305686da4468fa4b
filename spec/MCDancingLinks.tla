--------------------------- MODULE MCDancingLinks ---------------------------
EXTENDS DancingLinks
CONSTANTS MaxCons, MaxRow, MaxForce, AnyOrder
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
RowLists == IF AnyOrder THEN {s \in SeqsUpTo(0..MaxRow, MaxRow + 1) : Cardinality(SetOf(s)) = Len(s)}
            ELSE {s \in SeqsUpTo(0..MaxRow, MaxRow + 1) : \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]}
AllInstances == [cons : SeqsUpTo(RowLists, MaxCons), force : SeqsUpTo(0..(MaxRow + 1), MaxForce), solve : BOOLEAN]
=============================================================================
