------------------------------ MODULE LimitRule ------------------------------
(* Move limits of a boundary point (millionths): the negative limit shrinks to the distance to    *)
(* the domain edge and to a masked closest node.  r gives ml (global limit) and masked (0/1).     *)
EXTENDS ContourOps
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
NearTo(a, b, tol) == a - b <= tol /\ b - a <= tol
NearestNodes(g, pos) == LET x == pos[1] \div Micro y == pos[2] \div Micro
                            c == {p \in {x, x + 1} \X {y, y + 1} : p \in Nodes(g)}
                            D(p) == AbsV(pos[1] - p[1] * Micro) + AbsV(pos[2] - p[2] * Micro)
                        IN {p \in c : \A q \in c : D(p) <= D(q) + 4}
LimitOK(r, g, pos, neg, fixed) ==
    LET edge == MinOf(MinOf(pos[1], g.w * Micro - pos[1]), MinOf(pos[2], g.h * Micro - pos[2]))
        base == IF edge < r.ml THEN -edge ELSE -r.ml
    IN \E p \in NearestNodes(g, pos) :
        LET d == AbsV(pos[1] - p[1] * Micro) + AbsV(pos[2] - p[2] * Micro)
            m == r.masked[NodeNo(g, p[1], p[2])] = 1
        IN /\ fixed => m /\ d <= 1
           /\ m /\ d = 0 => fixed
           /\ NearTo(neg, IF m /\ ~fixed THEN MaxOf(base, -d) ELSE base, 3)
=============================================================================
