----------------------------- MODULE MCMazeCert -----------------------------
(* Soundness of the certificates of MazeDefs: on every arrangement of walls of *)
(* a small grid, whatever data is offered as certificate, if it is verified it *)
(* says what the definitions say.                                              *)
EXTENDS MazeDefs

CONSTANTS W, H, MaxSteps, Nest
VARIABLES m, d, sol, pos, lo, hi
vars == <<m, d, sol, pos, lo, hi>>

N == W * H
Bits == [1..N -> {0, 1}]
\* a maze is chosen first, then one certificate is offered; the other data stays trivial
Walks == UNION {[1..k -> Directions] : k \in 0..MaxSteps}
Places == {p \in UNION {[1..k -> 0..(N - 1)] : k \in 1..(MaxSteps + 1)} : p[1] = 0}
Init == /\ m \in [w : {W}, h : {H}, right : Bits, down : Bits]
        /\ d = <<>> /\ sol = <<>> /\ pos = <<>> /\ lo = <<>> /\ hi = <<>>
OfferDistances ==
  /\ d' \in {f \in [1..N -> -1..(N - 1)] : f[1] = 0}
  /\ UNCHANGED <<m, sol, pos, lo, hi>>
OfferWalk ==
  /\ sol' \in Walks /\ pos' \in Places
  /\ UNCHANGED <<m, d, lo, hi>>
OfferNest ==
  /\ Nest /\ Perfect(m)
  /\ \E l \in {Layers(m)} : d' = [i \in 1..N |-> LayerOf(l, i - 1) - 1]
  /\ lo' \in {f \in [1..N -> 1..N] : f[1] = 1} /\ hi' \in {f \in [1..N -> 1..N] : f[1] = N}
  /\ UNCHANGED <<m, sol, pos>>
Next == d = <<>> /\ pos = <<>> /\ (OfferDistances \/ OfferWalk \/ OfferNest)
Spec == Init /\ [][Next]_vars

DistanceMeaning ==
  (Len(d) = N /\ Certified(m, d)) =>
    \E l \in {Layers(m)} :
      /\ \A c \in Cells(m) : IF d[c + 1] = -1 THEN \A k \in 1..Len(l) : c \notin l[k] ELSE c \in l[d[c + 1] + 1]
      /\ PerfectCert(m, d) = PerfectWith(m, l)
      /\ Reached(l) = N => ExitCert(m, d) = ExitRightWith(m, l)
WalkMeaning == (pos # <<>> /\ WalkCertified(m, sol, pos)) => SolutionCert(m, sol, pos) = SolutionRight(m, sol)
NestMeaning == (Len(lo) = N /\ Certified(m, d) /\ NestCertified(m, d, lo, hi)) => DepthFirstCert(m, lo, hi) = DepthFirst(m)

\* Lemma: the stretches of depth-first trees, from the definition and as characterised
WayUp(path, n) == IF Len(path) < n + 1 THEN {} ELSE {SubSeq(path, Len(path) - n, Len(path))}
RECURSIVE WaysOut(_, _)
WaysOut(edges, path) ==
  LET c == path[Len(path)]
      next == {x \in UNION edges : {c, x} \in edges /\ (Len(path) = 1 \/ x # path[Len(path) - 1])}
  IN {path} \cup UNION {WaysOut(edges, Append(path, x)) : x \in next}
StretchesSeen(w, h, n) ==
  UNION {UNION {WayUp(p, n) : p \in WaysOut(t, <<0>>)} : t \in DfsTrees(w, h)}
ASSUME \A s \in {<<1, 3>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 3>>}, n \in 1..3 :
         Stretches(s[1], s[2], n) = StretchesSeen(s[1], s[2], n)
ASSUME \A s \in {<<2, 2>>, <<2, 4>>, <<5, 2>>, <<4, 4>>, <<6, 5>>} : Stretches(s[1], s[2], 1) = Steps(s[1], s[2])
\* Lemma: drawn from the centre of a field, the stretches of a grid are the ways
Drawn(w, p, len) ==
  LET side == FieldSide(len)
      at(c) == (len + 1 + (c % w) - (p[1] % w)) + side * (len + 1 + (c \div w) - (p[1] \div w))
  IN [k \in 1..Len(p) |-> at(p[k])]
ASSUME \A s \in {<<6, 6, 1>>, <<7, 6, 2>>, <<8, 7, 3>>} :
         {Drawn(s[1], p, s[3]) : p \in Stretches(s[1], s[2], s[3])} = Ways(s[3])
ASSUME {Drawn(3, p, 3) : p \in Stretches(3, 3, 3)} \subseteq Ways(3)
=============================================================================
