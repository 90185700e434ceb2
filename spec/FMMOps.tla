-------------------------------- MODULE FMMOps --------------------------------
(* The equations of the fast marching method on a grid, in fixed point.  Values are functions     *)
(* from node numbers (row major, from 1) to integers; One is the length of a cell.                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT One

AbsF(v) == IF v < 0 THEN -v ELSE v
SignF(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
\* Neighbour of node i in direction d (1 left, 2 right, 3 down, 4 up); 0 outside the mesh.
Nbr(w, h, i, d) ==
    LET x == (i - 1) % (w + 1) y == (i - 1) \div (w + 1) IN
    CASE d = 1 -> IF x = 0 THEN 0 ELSE i - 1
      [] d = 2 -> IF x = w THEN 0 ELSE i + 1
      [] d = 3 -> IF y = 0 THEN 0 ELSE i - (w + 1)
      [] d = 4 -> IF y = h THEN 0 ELSE i + (w + 1)
Nbrs(w, h, i) == {Nbr(w, h, i, d) : d \in 1..4} \ {0}
\* Nodes two steps away along an axis.
Far(w, h, i) == {IF Nbr(w, h, i, d) = 0 THEN 0 ELSE Nbr(w, h, Nbr(w, h, i, d), d) : d \in 1..4} \ {0}
NodeSet(w, h) == 1..((w + 1) * (h + 1))

\* A node next to the contour: it has a neighbour of opposite sign.
Opposite(w, h, f, i) == {d \in 1..4 : Nbr(w, h, i, d) # 0 /\ SignF(f[i]) * SignF(f[Nbr(w, h, i, d)]) = -1}
InitiallyAccepted(w, h, f) == {i \in NodeSet(w, h) : f[i] = 0 \/ Opposite(w, h, f, i) # {}}

\* One axis of the upwind stencil of node i of sign s: the set of possible <<order, t>>, where the axis
\* contributes (u - t)^2 (order 1) or 9/4 (u - t)^2 (order 2).  acc gives the acceptance position of every
\* accepted node (0: not accepted), v the values.  The neighbour nearer the contour is used, either one when
\* they are equally near; the second neighbour behind it counts when it is not further from the contour.  A
\* second neighbour accepted after the first may or may not have been seen.
AxisTerms(w, h, v, acc, i, s, ax, tol) ==
    LET D == {d \in {2 * ax - 1, 2 * ax} : Nbr(w, h, i, d) # 0 /\ acc[Nbr(w, h, i, d)] > 0}
        m(d) == AbsF(v[Nbr(w, h, i, d)])
        best == {d \in D : \A e \in D : m(d) <= m(e) + tol}
        Of(d) == LET a == Nbr(w, h, i, d)
                     b == Nbr(w, h, a, d)
                     two == b # 0 /\ acc[b] > 0 /\ AbsF(v[b]) <= AbsF(v[a]) + tol
                     unsure == b # 0 /\ ((acc[b] > 1 /\ acc[b] >= acc[a]) \/ AbsF(AbsF(v[b]) - AbsF(v[a])) <= tol)
                     second == <<2, (4 * s * v[a] - s * v[b]) \div 3>>
                     first == <<1, s * v[a]>>
                 IN IF ~two THEN {first} ELSE IF unsure THEN {first, second} ELSE {second}
    IN UNION {Of(d) : d \in best}
Weighted(o, d) == IF o = 2 THEN ((d * d) \div 4) * 9 ELSE d * d
\* Squared distance of two terms that still meet (times One^2): 1/w1 + 1/w2.
Reach(o1, o2) == IF o1 = 1 /\ o2 = 1 THEN 2 * One * One ELSE IF o1 = 2 /\ o2 = 2 THEN (8 * One * One) \div 9 ELSE (13 * One * One) \div 9
=============================================================================
