-------------------------------- MODULE ExtOps --------------------------------
(* Rules of the velocity extension.  Distances and velocities are fixed point.                      *)
EXTENDS FMMOps
\* Quotient a / n to d decimal places, rounded (0 <= a <= n).
RECURSIVE Quot(_, _, _, _)
Quot(a, n, q, d) == IF d = 0 THEN q + (IF 2 * a >= n THEN 1 ELSE 0) ELSE Quot((10 * a) % n, n, 10 * q + ((10 * a) \div n), d - 1)
Ratio4(a, n) == Quot(a, n, 0, 4)

\* Accepted neighbours of node i along one axis that are nearest to the contour (several when equal).
Upwind(w, h, dist, acc, i, ax, tol) ==
    LET D == {Nbr(w, h, i, d) : d \in {2 * ax - 1, 2 * ax}} \ {0}
        A == {j \in D : acc[j] > 0}
    IN {j \in A : \A k \in A : AbsF(dist[j]) <= AbsF(dist[k]) + tol}
\* Weighted average of the velocities of the upwind neighbours; the weight of an axis is the difference of
\* the distances.
AverageOf(va, wa, vb, wb) == LET q == Ratio4(wa, wa + wb) IN (q * va + (10000 - q) * vb) \div 10000

\* Boundary points that count for a node: those at most one cell away along its two grid lines.  Points are
\* records [x, y, v]; coordinates in units of 1/C of a cell.
Assigned(P, x, y, C) == {p \in 1..Len(P) : \/ P[p].x = x * C /\ AbsF(P[p].y - y * C) <= C
                                           \/ P[p].y = y * C /\ AbsF(P[p].x - x * C) <= C}
DistTo(p, x, y, C) == AbsF(p.x - x * C) + AbsF(p.y - y * C)
\* Inverse square weights relative to the nearest point (10^-4).
RelWeight(m, d) == LET q == Ratio4(m, d) IN (q * q) \div 10000
RECURSIVE SumW(_, _)
SumW(S, f) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN f[p] + SumW(S \ {p}, f)
InverseSquare(P, A, x, y, C) ==
    LET m == CHOOSE d \in {DistTo(P[p], x, y, C) : p \in A} : \A e \in A : d <= DistTo(P[e], x, y, C)
        W == [p \in A |-> RelWeight(m, DistTo(P[p], x, y, C))]
    IN SumW(A, [p \in A |-> W[p] * P[p].v]) \div SumW(A, W)
=============================================================================
